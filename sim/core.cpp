// Scheduler, choice streams, simulated clock, threads and synchronisation.
#include "core.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <signal.h>
#include <cstdarg>
#include <queue>
#include <algorithm>
#include <new>
#include <sys/random.h>
#include <unordered_map>
#include <map>
#include <execinfo.h>
#include <dlfcn.h>
#include <cxxabi.h>

namespace sim {
const char* fault_name[F_N] = { "eintr", "short_read", "short_write", "eagain", "spurious_wakeup", "accept_error", "alloc_failure", "pipe_failure", "dup_failure",
  "open_failure", "read_eio", "write_enospc", "write_eio", "process_kill", "disk_full", "client_reset", "client_fin", "hangup", "stdin_eof", "stdin_eio",
  "signal", "handler_throw", "net_delay", "net_segment", "slow_reader", "stream_failure", "destroy_midway", "reset_during_write", "close_eio", "rename_failure", "thread_failure" };
Config cfg;

namespace detail {
Result* R = nullptr;
__thread Thread* self = nullptr;
std::vector<Thread*> threads;
void (*hb_acquire)(int, const void*) = nullptr;
void (*hb_release)(int, const void*) = nullptr;
void (*hb_fork)(int, int) = nullptr;
void (*hb_join)(int, int) = nullptr;
void (*hb_start)(int) = nullptr;
void (*hb_harness_release)(int) = nullptr;
void (*hb_harness_acquire)(int) = nullptr;
void (*hb_end)() = nullptr;

long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long ret; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

// ------------------------------------------------------------ state of the run
static std::string g_focus; static bool g_replay, g_verbose; static void (*g_world)();
static const std::vector<uint32_t>* g_in; static size_t g_pos[3];
static uint64_t g_now, g_steps, g_hash, g_switches, g_blocks, g_last_activity, g_blocks_since, g_consec, g_evseq;
static uint64_t rng_state[4];
struct Ev { uint64_t t, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev*, std::vector<Ev*>, EvCmp> g_events;
static bool g_ending = false;
// scheduling policy (generation only)
static int pol_mode; static double pol_p; static std::vector<uint64_t> pol_change; static uint64_t bb_interval; static uint64_t bb_left;

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t policy_rng() { return splitmix(rng_state[3]); }
static double policy_unit() { return (double)(policy_rng() >> 11) / 9007199254740992.0; }
bool replaying() { return g_replay; }

void trace(uint64_t a, uint64_t b, uint64_t c)
{
    auto mix = [](uint64_t v) { g_hash ^= v + 0x9e3779b97f4a7c15ull + (g_hash << 6) + (g_hash >> 2); g_hash *= 0x100000001b3ull; };
    mix(a); mix(b); mix(c);
    static FILE* tf = getenv("SIM_TRACE") ? fopen(getenv("SIM_TRACE"), "w") : nullptr;
    if (tf) { fprintf(tf, "%d %llu %llu %llu @%llu\n", self ? self->id : -1, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)g_now); fflush(tf); }
}

[[noreturn]] static void finish(uint32_t status)
{
    g_ending = true;
    if (hb_end) hb_end();
    R->hash = g_hash; R->steps = g_steps; R->sim_ns = g_now; R->switches = g_switches; R->blocks = g_blocks;
    __atomic_store_n(&R->status, status, __ATOMIC_SEQ_CST);
    raw_syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

uint32_t record(Stream s, uint32_t v)
{
    if (g_replay) { auto& in = g_in[s]; v = g_pos[s] < in.size() ? in[g_pos[s]] : 0; g_pos[s]++; }
    if (R->n[s] >= MAXCH) finish(3);
    R->ch[s][R->n[s]++] = v;
    return v;
}
} // detail
using namespace detail;

static uint32_t record_n(Stream s, uint32_t v, uint32_t n)
{
    if (g_replay) { auto& in = g_in[s]; v = g_pos[s] < in.size() ? in[g_pos[s]] : 0; g_pos[s]++; if (v >= n) v = n - 1; }
    if (R->n[s] >= MAXCH) finish(3);
    R->ch[s][R->n[s]++] = v;
    return v;
}
uint32_t choose(Stream s, uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t v = 0;
    if (!g_replay) v = (uint32_t)((splitmix(rng_state[s]) >> 32) * (uint64_t)n >> 32);
    return record_n(s, v, n);
}
bool chance(Stream s, double p)
{
    if (p <= 0) return false;
    uint32_t v = 0;
    if (!g_replay) v = ((double)(splitmix(rng_state[s]) >> 11) / 9007199254740992.0) < p;
    return record_n(s, v, 2) != 0;
}
void count_fault(Fault f) { R->faults[f]++; }
bool fault(Fault f)
{
    if (cfg.p[f] <= 0) return false;
    if (!chance(F, cfg.p[f])) return false;
    R->faults[f]++;
    trace(0xFA, f);
    return true;
}
void probe(const char* name)
{
    for (uint32_t i = 0; i < R->nprobe; ++i) if (!strcmp(R->probe[i].name, name)) { R->probe[i].n++; return; }
    if (R->nprobe < 96) { auto& p = R->probe[R->nprobe++]; strncpy(p.name, name, 47); p.n = 1; }
}
void stat_add(const char* name, uint64_t v)
{
    for (uint32_t i = 0; i < R->nstat; ++i) if (!strcmp(R->stat[i].name, name)) { R->stat[i].n += v; return; }
    if (R->nstat < 64) { auto& p = R->stat[R->nstat++]; strncpy(p.name, name, 47); p.n = v; }
}
const char* focus() { return g_focus.c_str(); }
bool focus_is(const char* id) { return g_focus == id; }
bool verbose() { return g_verbose; }
uint64_t now_ns() { return g_now; }
uint64_t steps() { return g_steps; }
int self_id() { return self ? self->id : -1; }

void note(const std::string& s)
{
    uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    trace(OP_NOTE, h);
    uint32_t l = (uint32_t)s.size();
    if (R->narr_len + l + 24 < sizeof(R->narr))
    {
        int k = snprintf(R->narr + R->narr_len, 24, "[%d] ", self ? self->id : -1);
        R->narr_len += (uint32_t)k;
        for (char c : s) R->narr[R->narr_len++] = (c == '\n') ? '~' : c;
        R->narr[R->narr_len++] = '\n';
    }
}

void violation(const char* tags, const char* kind, const std::string& msg)
{
    strncpy(R->tags, tags, 63); strncpy(R->kind, kind, 127); strncpy(R->msg, msg.c_str(), 4095);
    bool mine = g_focus == "ALL" || strcmp(tags, "*") == 0 || std::string(tags).find(g_focus) != std::string::npos;
    finish(mine ? 2 : 5);
}
void known_or_violation(const char* id, const char* tags, const char* kind, const std::string& msg)
{
    const char* l = getenv("SIM_KNOWN"); std::string s = std::string(",") + (l ? l : "") + ",";
    if (s.find(std::string(",") + id + ",") == std::string::npos) violation(tags, kind, msg);
    probe((std::string("known:") + id).c_str());
}
void harness_error(const std::string& msg) { strncpy(R->kind, "harness", 127); strncpy(R->msg, msg.c_str(), 4095); finish(4); }
void end_run() { finish(1); }

namespace detail {
// ------------------------------------------------------------ baton
static void sem_wait_raw(Thread* t)
{
    while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0)
        raw_syscall(SYS_futex, (long)&t->sem, FUTEX_WAIT_PRIVATE, 0, 0);
    __atomic_store_n(&t->sem, 0, __ATOMIC_RELAXED);
}
static void hand_over(Thread* t)
{
    __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)&t->sem, FUTEX_WAKE_PRIVATE, 1);
}
void event_at(uint64_t t, std::function<void()> fn) { g_events.push(new Ev{ t, g_evseq++, std::move(fn) }); }

static void fire_events()
{
    while (!g_events.empty() && g_events.top()->t <= g_now)
    {
        Ev* e = g_events.top(); g_events.pop();
        g_last_activity = g_now;
        self->in_core++; e->fn(); self->in_core--;
        delete e;
    }
}
static std::string dump_threads()
{
    std::string s;
    for (auto t : threads)
    {
        static const char* n[] = { "running", "blocked", "idle-wait", "done", "dead" };
        if (t->st == DONE || t->st == DEAD) continue;
        s += " [" + std::to_string(t->id) + " " + t->name + ": " + n[t->st]; if (t->st == BLOCK) s += std::string(" in ") + t->why; s += "]";
    }
    return s;
}
static bool ready(Thread* t)
{
    if (t->st == RUN) return true;
    if (t->st != BLOCK) return false;
    if (t->interruptible && t->interrupted) return true;
    self->in_core++; bool r = (*t->pred)(); self->in_core--;
    if (r) return true;
    if (t->deadline <= g_now) { return true; }
    return false;
}

static void check_limits()
{
    if (g_steps > cfg.max_steps)
        violation("*", "no-progress", "no end of activity after " + std::to_string(g_steps) + " scheduling steps (endless loop or livelock);" + dump_threads());
}

// candidates: current thread first if runnable
static Thread* pick(Thread* cur, bool cur_ok, uint32_t op)
{
    static std::vector<Thread*> c;
    for (;;)
    {
        fire_events();
        c.clear();
        size_t n = threads.size(), base = (size_t)cur->id;
        if (cur_ok) c.push_back(cur);
        for (size_t k = cur_ok ? 1 : 0; k < n + (cur_ok ? 0 : 1); ++k)
        {
            Thread* t = threads[(base + k) % n];
            if (t == cur && (cur_ok || k == n)) continue;
            if (ready(t)) c.push_back(t);
        }
        if (!c.empty()) break;
        uint64_t te = g_events.empty() ? INF : g_events.top()->t, td = INF; Thread* idle = nullptr;
        for (auto t : threads) { if (t->st == BLOCK && t->deadline < td) td = t->deadline; if (t->st == IDLE && !idle) idle = t; }
        if (idle && te == INF && (td == INF || td > g_last_activity + 3000000000ull)) { trace(OP_IDLE, idle->id); return idle; }
        uint64_t t = te < td ? te : td;
        if (t == INF) violation("*", "deadlock", "nothing can run any more:" + dump_threads());
        if (t > g_now) g_now = t;
        g_steps++; check_limits();
    }
    uint32_t i = 0; uint32_t m = (uint32_t)c.size();
    if (m == 1) { if (c[0] == cur) g_consec = 0; return c[0]; }
    if (cur_ok && ++g_consec > 400) { g_consec = 0; return c[1 + (g_steps % (m - 1))]; } // fairness
    if (!g_replay)
    {
        if (pol_mode == 1)
        {
            while (!pol_change.empty() && g_steps >= pol_change.back()) { pol_change.pop_back(); cur->prio = policy_rng() % 1000; }
            if (op == OP_YIELD || op == OP_POLL) cur->prio = policy_rng() % 1000;
            for (uint32_t k = 1; k < m; ++k) if (c[k]->prio > c[i]->prio) i = k;
        }
        else if (cur_ok) { double p = op == OP_BB ? 0.7 : op == OP_YIELD ? 0.8 : pol_p; if (policy_unit() < p) i = 1 + (uint32_t)(policy_rng() % (m - 1)); }
        else i = (uint32_t)(policy_rng() % m);
    }
    i = record_n(S, i, m);
    return c[i];
}
static void switch_to(Thread* cur, Thread* nxt, bool wait)
{
    if (nxt == cur) return;
    g_consec = 0; g_switches++;
    uint32_t b = cur->last_op * OP_N + nxt->last_op; R->opair[b >> 3] |= (uint8_t)(1u << (b & 7));
    trace(0x5317C4, (uint64_t)cur->id << 8 | (uint64_t)nxt->id, cur->last_op);
    hand_over(nxt);
    if (wait) { sem_wait_raw(cur); }
}
static void woken(Thread* t)
{
    if (t->st == IDLE) { t->st = RUN; g_last_activity = g_now; }
    g_blocks_since = 0;
}
void point(uint32_t op, uint64_t arg)
{
    Thread* t = self; if (!t || t->in_core || g_ending) return;
    InCore ic;
    t->last_op = op; g_steps++; g_now += cfg.tick_ns; g_blocks_since = 0;
    trace(op, arg, (uint64_t)t->id);
    check_limits();
    if (t->nopreempt) { fire_events(); return; }
    Thread* n = pick(t, true, op);
    switch_to(t, n, true);
    woken(t);
}
bool block(uint32_t op, const char* why, const std::function<bool()>& pred, uint64_t deadline, bool interruptible)
{
    Thread* t = self;
    point(op, 0);
    InCore ic;
    t->interrupted = false; t->timed_out = false;
    if (interruptible && fault(F_EINTR))
    {
        if (chance(F, 0.5)) { t->interrupted = true; }
        else { Thread* tt = t; event_at(g_now + 1000ull * (1 + choose(F, 3000)), [tt] { if (tt->interruptible) tt->interrupted = true; }); }
    }
    if (pred()) { t->interrupted = false; return true; }
    if (interruptible && t->interrupted) return false;
    t->st = BLOCK; t->pred = &pred; t->deadline = deadline; t->why = why; t->interruptible = interruptible;
    Thread* n = pick(t, false, op);
    if (n != t) switch_to(t, n, true);
    woken(t);
    t->st = RUN; t->pred = nullptr; t->interruptible = false;
    bool ok = pred();
    if (ok) { t->interrupted = false; return true; }
    if (interruptible && t->interrupted) return false;
    t->timed_out = true;
    return false;
}
std::map<std::string, void (*)()>& worlds() { static std::map<std::string, void (*)()> w; return w; }

static void* trampoline(void* p)
{
    Thread* t = (Thread*)p; self = t;
    sem_wait_raw(t);
    woken(t);
    if (hb_start && !t->env) { InCore ic; hb_start(t->id); }
    if (t->fn) t->fn(); else t->ret = t->start(t->arg);
    t->in_core++;
    t->st = DONE; t->last_op = OP_EXIT; g_steps++; trace(OP_EXIT, (uint64_t)t->id);
    rel(t); if (hb_harness_release && !t->env) hb_harness_release(t->id);
    Thread* n = pick(t, false, OP_EXIT);
    self = nullptr;
    switch_to(t, n, false);
    return t->ret;
}
static int create_thread(Thread* t)
{
    t->id = (int)threads.size(); threads.push_back(t); t->prio = g_replay ? 0 : 1000 + policy_rng() % 1000;
    pthread_attr_t a; REAL(pthread_attr_init)(&a);
    pthread_t p; int r = REAL(pthread_create)(&p, &a, trampoline, t);
    if (r) harness_error("pthread_create failed");
    t->pth = (unsigned long)p;
    return r;
}
void start_run(uint64_t seed, const char* focus, bool replay, const std::vector<uint32_t>* in, bool verbose, void (*world)())
{
    g_focus = focus; g_replay = replay; g_in = in; g_verbose = verbose; g_world = world;
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 0x1234567; for (auto& r : rng_state) r = splitmix(x);
    g_hash = 1469598103934665603ull;
    static Thread main; main.name = "main"; self = &main; threads.push_back(&main);
    main.in_core++;
    io_reset(); disk_reset();
    if (!replay)
    {
        uint64_t m = policy_rng() % 10;
        pol_mode = m < 3 ? 1 : 0;
        static const double ps[] = { 0.005, 0.02, 0.05, 0.15, 0.3, 0.6 }; pol_p = ps[policy_rng() % 6];
        if (pol_mode == 1)
        {
            main.prio = 1000 + policy_rng() % 1000; unsigned d = (unsigned)(policy_rng() % 12); uint64_t span = 50 + policy_rng() % 3000;
            for (unsigned i = 0; i < d; ++i) pol_change.push_back(policy_rng() % span);
            std::sort(pol_change.rbegin(), pol_change.rend());
        }
        static const uint64_t bi[] = { 0, 0, 0, 30, 150, 600, 2500, 0 }; bb_interval = bi[policy_rng() % 8];
    }
    { uint32_t v = bb_interval ? (uint32_t)(1 + policy_rng() % (2 * bb_interval)) : 0; bb_left = record(S, v); }
    main.in_core--;
    world();
    self->in_core++;
    end_run();
}
} // detail

void spawn_env(const std::string& name, std::function<void()> fn)
{
    point(OP_CREATE);
    InCore ic;
    Thread* t = new Thread; t->name = name; t->env = true; t->fn = std::move(fn);
    create_thread(t);
}
void mark_env() { self->env = true; }
void set_main_as_env() { self->env = true; }
void sleep_us(uint64_t us)
{
    if (us == 0) { point(OP_SLEEP); return; }
    static const std::function<bool()> never = [] { return false; };
    block(OP_SLEEP, "sleep", never, g_now + us * 1000);
}
void yield() { point(OP_YIELD); }
bool block_until(const char* why, const std::function<bool()>& pred, uint64_t timeout_us)
{
    bool r = block(OP_ENV, why, pred, timeout_us == UINT64_MAX ? INF : g_now + timeout_us * 1000);
    if (hb_harness_acquire && !self->env) hb_harness_acquire(self->id);
    return r;
}
void wait_idle()
{
    Thread* t = self;
    point(OP_IDLE);
    InCore ic;
    g_last_activity = g_now;
    t->st = IDLE;
    Thread* n = pick(t, false, OP_IDLE);
    if (n != t) switch_to(t, n, true);
    woken(t); t->st = RUN;
}
bool thread_done(int id) { return threads[(size_t)id]->st == DONE; }
void at(uint64_t delay_us, std::function<void()> fn) { event_at(g_now + delay_us * 1000, std::move(fn)); }
int live_lib_threads() { int n = 0; for (auto t : threads) if (!t->env && t->id != 0 && t->st != DONE && t->st != DEAD) n++; return n; }
NoPreempt::NoPreempt() { if (self) self->nopreempt++; }
NoPreempt::~NoPreempt() { if (self && --self->nopreempt == 0 && hb_harness_release && !self->env && !self->in_core) hb_harness_release(self->id); }
AllocFaults::AllocFaults() { self->alloc_faults = true; }
AllocFaults::~AllocFaults() { self->alloc_faults = false; }
static bool g_killed;
int spawn_app(const std::string& name, std::function<void()> fn)
{
    point(OP_CREATE);
    InCore ic;
    g_killed = false;
    Thread* t = new Thread; t->name = name; t->fn = std::move(fn);
    create_thread(t);
    if (hb_fork && !self->env) hb_fork(self->id, t->id);
    if (hb_harness_acquire) hb_harness_acquire(t->id);
    return t->id;
}
void kill_app()
{
    InCore ic;
    g_killed = true;
    for (auto t : threads) if (!t->env && t->st != DONE)
    {
        t->st = DEAD;
        for (int* g : t->guards) *g = 0; // a restarted program initialises its static locals afresh
        t->guards.clear();
    }
    io_kill(); disk_reset_incarnation();
    if (self->st != DEAD) return;
    Thread* me = self; Thread* n = pick(me, false, OP_EXIT);
    switch_to(me, n, false);
    for (;;) raw_syscall(SYS_futex, (long)&me->sem, FUTEX_WAIT_PRIVATE, 0, 0);
}
// initialisations of static locals: __cxa_guard_* of the C++ ABI, remembered so that a killed program releases them
extern "C" int __cxa_guard_acquire(int* g)
{
    static int (*real)(int*) = nullptr; if (!real) real = (int (*)(int*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    int r = real(g);
    if (r && active()) { InCore ic; self->guards.push_back(g); }
    if (!r) acq(g);
    return r;
}
static void guard_end(int* g)
{
    if (!active()) return;
    InCore ic;
    for (size_t i = self->guards.size(); i-- > 0; ) if (self->guards[i] == g) { self->guards.erase(self->guards.begin() + (long)i); break; }
}
extern "C" void __cxa_guard_release(int* g) noexcept { static void (*real)(int*) = nullptr; if (!real) real = (void (*)(int*))dlsym(RTLD_NEXT, "__cxa_guard_release"); guard_end(g); rel(g); real(g); }
extern "C" void __cxa_guard_abort(int* g) noexcept { static void (*real)(int*) = nullptr; if (!real) real = (void (*)(int*))dlsym(RTLD_NEXT, "__cxa_guard_abort"); guard_end(g); real(g); }
bool app_killed() { return g_killed; }
void register_world(const char* name, void (*run)()) { worlds()[name] = run; }

// ------------------------------------------------------------ coverage call-back: preemption and hang detection
extern "C" void __sanitizer_cov_trace_pc() { block_tick(); }
void detail::block_tick()
{
    Thread* t = self;
    if (!t || t->in_core || t->env) return;
    g_blocks++;
    if (++g_blocks_since > 30000000ull && !t->nopreempt)
        violation("*", "hang", "a thread runs on without any scheduling point (endless loop)");
    if (t->nopreempt) return;
    if (bb_left && --bb_left == 0)
    {
        { uint32_t v = bb_interval ? (uint32_t)(1 + policy_rng() % (2 * bb_interval)) : 0; bb_left = record(S, v); }
        int e = errno; point(OP_BB); errno = e;
    }
}
} // namespace sim

using namespace sim;
using namespace sim::detail;

// mutex state is kept inside the pthread_mutex_t itself: __lock 0/1, __owner = thread id + 1, __count
struct MX { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static MX* mx(void* m) { return (MX*)m; }
int sim::detail::mutex_lock_sim(void* m)
{
    MX* x = mx(m); int type = x->kind & 3;
    if (x->lock && x->owner == self->id + 1)
    {
        if (type == 1) { x->count++; point(OP_LOCK); return 0; }
        if (type == 2) return EDEADLK;
        violation("*", "self-deadlock", "a thread locks a mutex it already holds");
    }
    if (self->nopreempt && x->lock) harness_error("mutex contention in a no-preempt section");
    if (self->nopreempt) { }
    else
    {
        std::function<bool()> p = [x] { return x->lock == 0; };
        block(OP_LOCK, "mutex lock", p);
    }
    x->lock = 1; x->owner = self->id + 1; x->count = 0;
    acq(m);
    return 0;
}
int sim::detail::mutex_unlock_sim(void* m)
{
    MX* x = mx(m);
    if ((x->kind & 3) == 1 && x->count) { x->count--; return 0; }
    if (!x->lock) { violation("*", "unlock-not-locked", "unlock of a mutex that is not locked"); }
    if (x->owner != self->id + 1) { if ((x->kind & 3) == 0) violation("*", "unlock-not-owner", "unlock of a mutex held by another thread"); return EPERM; }
    rel(m);
    x->lock = 0; x->owner = 0;
    return 0;
}
// ------------------------------------------------------------ interposed pthread functions
extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*start)(void*), void* arg)
{
    if (!active()) return REAL(pthread_create)(th, attr, start, arg);
    point(OP_CREATE);
    Thread* t;
    {
        InCore ic;
        if (fault(F_THREAD_FAIL)) return EAGAIN;
        t = new Thread; t->name = "lib-thread"; t->start = start; t->arg = arg; t->env = self->env && false;
        create_thread(t);
        if (hb_fork && !self->env) hb_fork(self->id, t->id);
        *th = (pthread_t)t->pth;
    }
    point(OP_CREATE, 1);
    return 0;
}
static Thread* by_pth(pthread_t p) { for (auto t : threads) if (t->pth == (unsigned long)p && !t->joined) return t; return nullptr; }
int pthread_join(pthread_t th, void** ret)
{
    if (!active()) return REAL(pthread_join)(th, ret);
    Thread* t = by_pth(th);
    if (!t) return REAL(pthread_join)(th, ret);
    if (t == self) return EDEADLK;
    std::function<bool()> p = [t] { return t->st == DONE; };
    block(OP_JOIN, "join of a thread", p);
    t->joined = true;
    { InCore ic; REAL(pthread_join)(th, nullptr); }
    if (ret) *ret = t->ret;
    acq(t); if (hb_join && !self->env) hb_join(self->id, t->id);
    return 0;
}
int pthread_detach(pthread_t th)
{
    if (!active()) return REAL(pthread_detach)(th);
    Thread* t = by_pth(th); if (t) t->detached = true;
    point(OP_JOIN);
    InCore ic; return REAL(pthread_detach)(th);
}

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    if (!active()) return REAL(pthread_mutex_init)(m, a);
    int kind = 0; if (a) { REAL(pthread_mutexattr_gettype)(a, &kind); }
    memset(m, 0, sizeof *m); mx(m)->kind = kind;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!active()) return REAL(pthread_mutex_destroy)(m);
    if (mx(m)->lock) violation("*", "destroy-locked-mutex", "a locked mutex is destroyed");
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!active()) return REAL(pthread_mutex_lock)(m);
    return mutex_lock_sim(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!active()) return REAL(pthread_mutex_trylock)(m);
    point(OP_TRYLOCK);
    MX* x = mx(m);
    if (x->lock) { if (x->owner == self->id + 1 && (x->kind & 3) == 1) { x->count++; return 0; } return EBUSY; }
    x->lock = 1; x->owner = self->id + 1; x->count = 0; acq(m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept
{
    if (!active()) return REAL(pthread_mutex_timedlock)(m, ts);
    MX* x = mx(m); std::function<bool()> p = [x] { return x->lock == 0; };
    if (!block(OP_LOCK, "timed mutex lock", p, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec)) return ETIMEDOUT;
    x->lock = 1; x->owner = self->id + 1; x->count = 0; acq(m); return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) noexcept
{
    if (!active()) return REAL(pthread_mutex_clocklock)(m, c, ts);
    return pthread_mutex_timedlock(m, ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!active()) return REAL(pthread_mutex_unlock)(m);
    mutex_unlock_sim(m);
    point(OP_UNLOCK);
    return 0;
}

// condition variables
struct Waiter { Thread* t; bool signaled; };
static std::map<void*, std::deque<Waiter*>>& cvs() { static auto* m = new std::map<void*, std::deque<Waiter*>>; return *m; }
static int cond_wait_sim(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    point(OP_CWAIT);
    if (self->nopreempt) harness_error("condition wait in a no-preempt section");
    MX* x = mx(m);
    if (!x->lock || x->owner != self->id + 1) violation("*", "wait-without-lock", "condition wait without holding the mutex");
    Waiter w{ self, false };
    { InCore ic; cvs()[c].push_back(&w); }
    mutex_unlock_sim(m);
    bool spur = false;
    { InCore ic;
      if (fault(F_SPURIOUS)) { spur = true; Waiter* pw = &w; bool now = chance(F, 0.5);
        if (now) w.signaled = true; else { Thread* t = self; (void)t; auto* cc = c; event_at(g_now + 1000ull * (1 + choose(F, 500)), [pw, cc] { for (auto q : cvs()[cc]) if (q == pw) pw->signaled = true; }); } } }
    (void)spur;
    std::function<bool()> p = [&w] { return w.signaled; };
    bool ok = block(OP_CWAIT, "condition wait", p, deadline);
    { InCore ic; auto& q = cvs()[c]; q.erase(std::remove(q.begin(), q.end(), &w), q.end()); }
    std::function<bool()> p2 = [x] { return x->lock == 0; };
    block(OP_LOCK, "mutex lock after condition wait", p2);
    x->lock = 1; x->owner = self->id + 1; x->count = 0; acq(m);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
    if (!active()) return REAL(pthread_cond_init)(c, a);
    memset(c, 0, sizeof *c); InCore ic; cvs().erase(c); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!active()) return REAL(pthread_cond_destroy)(c);
    InCore ic; auto i = cvs().find(c);
    if (i != cvs().end()) { for (auto w : i->second) if (!w->signaled && w->t->st != DEAD) violation("*", "destroy-cv", "a condition variable is destroyed while a thread waits on it"); cvs().erase(i); }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!active()) return REAL(pthread_cond_wait)(c, m);
    return cond_wait_sim(c, m, INF);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (!active()) return REAL(pthread_cond_timedwait)(c, m, ts);
    return cond_wait_sim(c, m, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    if (!active()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
    return cond_wait_sim(c, m, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!active()) return REAL(pthread_cond_signal)(c);
    point(OP_CSIG);
    {
        InCore ic; auto i = cvs().find(c);
        if (i != cvs().end())
        {
            std::vector<Waiter*> v; for (auto w : i->second) if (!w->signaled) v.push_back(w);
            if (!v.empty()) v[v.size() > 1 ? choose(S, (uint32_t)v.size()) : 0]->signaled = true;
        }
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!active()) return REAL(pthread_cond_broadcast)(c);
    point(OP_CBCAST);
    { InCore ic; auto i = cvs().find(c); if (i != cvs().end()) for (auto w : i->second) w->signaled = true; }
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (!active()) return REAL(pthread_once)(o, f);
    int* v = (int*)o;
    if (*v == 2) { acq(o); return 0; }
    if (*v == 0) { *v = 1; f(); *v = 2; rel(o); return 0; }
    std::function<bool()> p = [v] { return *v != 1; };
    block(OP_ONCE, "call_once", p); acq(o);
    return 0;
}
// read-write locks: state in the object: first int = readers, or -1 when write-locked
struct RW { int st; };
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) { if (!active()) return REAL(pthread_rwlock_init)(l, a); memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (!active()) return REAL(pthread_rwlock_destroy)(l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    if (!active()) return REAL(pthread_rwlock_rdlock)(l);
    RW* r = (RW*)l; std::function<bool()> p = [r] { return r->st >= 0; }; block(OP_LOCK, "read lock", p); r->st++; acq(l); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    if (!active()) return REAL(pthread_rwlock_wrlock)(l);
    RW* r = (RW*)l; std::function<bool()> p = [r] { return r->st == 0; }; block(OP_LOCK, "write lock", p); r->st = -1; acq(l); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if (!active()) return REAL(pthread_rwlock_tryrdlock)(l); RW* r = (RW*)l; if (r->st < 0) return EBUSY; r->st++; acq(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if (!active()) return REAL(pthread_rwlock_trywrlock)(l); RW* r = (RW*)l; if (r->st) return EBUSY; r->st = -1; acq(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if (!active()) return REAL(pthread_rwlock_unlock)(l);
    RW* r = (RW*)l; rel(l); if (r->st < 0) r->st = 0; else r->st--; point(OP_UNLOCK); return 0;
}
int sem_init(sem_t* s, int p, unsigned v) noexcept { if (!active()) return REAL(sem_init)(s, p, v); *(int*)s = (int)v; return 0; }
int sem_destroy(sem_t* s) noexcept { if (!active()) return REAL(sem_destroy)(s); return 0; }
int sem_post(sem_t* s) noexcept { if (!active()) return REAL(sem_post)(s); rel(s); ++*(int*)s; point(OP_SEM); return 0; }
int sem_wait(sem_t* s)
{
    if (!active()) return REAL(sem_wait)(s);
    int* v = (int*)s; std::function<bool()> p = [v] { return *v > 0; };
    if (!block(OP_SEM, "semaphore", p, INF, true)) { errno = EINTR; return -1; }
    --*v; acq(s); return 0;
}
int sem_trywait(sem_t* s) noexcept { if (!active()) return REAL(sem_trywait)(s); point(OP_SEM); if (*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; acq(s); return 0; }
int sem_timedwait(sem_t* s, const timespec* ts)
{
    if (!active()) return REAL(sem_timedwait)(s, ts);
    int* v = (int*)s; std::function<bool()> p = [v] { return *v > 0; };
    if (!block(OP_SEM, "semaphore", p, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec)) { errno = ETIMEDOUT; return -1; }
    --*v; acq(s); return 0;
}
int sched_yield(void) noexcept { if (!active()) return (int)raw_syscall(SYS_sched_yield); point(OP_YIELD); return 0; }

long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && active())
    {
        int cmd = (int)b & 127; int* addr = (int*)a;
        static std::map<int*, std::vector<bool*>>* ws = new std::map<int*, std::vector<bool*>>;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            point(OP_FUTEX);
            if (*addr != (int)c) { errno = EAGAIN; return -1; }
            bool wk = false; { InCore ic; (*ws)[addr].push_back(&wk); }
            uint64_t dl = INF; if (d) { auto* ts = (const timespec*)d; dl = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec + (cmd == FUTEX_WAIT ? g_now : 0); }
            std::function<bool()> p = [&wk] { return wk; };
            bool ok = block(OP_FUTEX, "futex", p, dl);
            { InCore ic; auto& v = (*ws)[addr]; v.erase(std::remove(v.begin(), v.end(), &wk), v.end()); }
            if (!ok) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        {
            point(OP_FUTEX);
            InCore ic; long k = 0; for (auto w : (*ws)[addr]) { if (k >= c) break; if (!*w) { *w = true; k++; } }
            return k;
        }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ------------------------------------------------------------ time
static const uint64_t EPOCH = 1700000000ull * 1000000000ull;
int clock_gettime(clockid_t k, timespec* ts) noexcept
{
    if (!active()) { long r = raw_syscall(SYS_clock_gettime, k, (long)ts); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    uint64_t t = g_now + (k == CLOCK_REALTIME ? EPOCH : 0);
    ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull); return 0;
}
time_t time(time_t* p) noexcept
{
    if (!active()) { timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
    time_t t = (time_t)((g_now + EPOCH) / 1000000000ull); if (p) *p = t; return t;
}
int gettimeofday(timeval* tv, void* tz) noexcept
{
    if (!active()) return REAL(gettimeofday)(tv, tz);
    uint64_t t = g_now + EPOCH; tv->tv_sec = (time_t)(t / 1000000000ull); tv->tv_usec = (suseconds_t)(t % 1000000000ull / 1000); return 0;
}
int nanosleep(const timespec* ts, timespec* rem)
{
    if (!active()) { long r = raw_syscall(SYS_nanosleep, (long)ts, (long)rem); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    sleep_us((uint64_t)ts->tv_sec * 1000000ull + (uint64_t)ts->tv_nsec / 1000); return 0;
}
int clock_nanosleep(clockid_t k, int fl, const timespec* ts, timespec* rem)
{
    if (!active()) { return (int)-raw_syscall(SYS_clock_nanosleep, k, fl, (long)ts, (long)rem); }
    uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
    if (fl & TIMER_ABSTIME) { uint64_t base = g_now + (k == CLOCK_REALTIME ? EPOCH : 0); t = t > base ? t - base : 0; }
    sleep_us(t / 1000); return 0;
}
int usleep(useconds_t us) { if (!active()) { timespec ts{ (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; raw_syscall(SYS_nanosleep, (long)&ts, 0); return 0; } sleep_us(us); return 0; }
unsigned sleep(unsigned s) { if (!active()) { timespec ts{ (time_t)s, 0 }; raw_syscall(SYS_nanosleep, (long)&ts, 0); return 0; } sleep_us((uint64_t)s * 1000000); return 0; }
ssize_t getrandom(void* b, size_t n, unsigned fl)
{
    if (!active()) { long r = raw_syscall(SYS_getrandom, (long)b, (long)n, fl); if (r < 0) { errno = (int)-r; return -1; } return r; }
    for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)choose(F, 256);
    return (ssize_t)n;
}
} // extern "C"

// ------------------------------------------------------------ allocations: failures, and those of the program that are alive
namespace {
struct Block { void* p; size_t n; uint64_t seq; void* frames[10]; int nf; };
bool g_tracking, g_table_busy; uint64_t g_seq; size_t g_tracked, g_tracked_bytes;
std::unordered_map<void*, Block>* g_allocs; // never freed: delete is called until the very end
void tracked_new(void* p, size_t n)
{
    if (!g_tracking || !self || self->in_core || self->env || self->nopreempt || sim::detail::g_ending || !p) return;
    InCore ic; Block b{ p, n, ++g_seq, {}, 0 }; b.nf = backtrace(b.frames, 10); g_table_busy = true; (*g_allocs)[p] = b; g_table_busy = false; g_tracked++; g_tracked_bytes += n;
}
void tracked_delete(void* p)
{
    if (!g_allocs || !p || !self || g_table_busy || sim::detail::g_ending) return;
    InCore ic; auto i = g_allocs->find(p); if (i == g_allocs->end()) return;
    g_tracked--; g_tracked_bytes -= i->second.n; g_table_busy = true; g_allocs->erase(i); g_table_busy = false;
}
}
void sim::track_allocations() { InCore ic; if (!g_allocs) g_allocs = new std::unordered_map<void*, Block>; g_tracking = true; }
size_t sim::live_allocations() { return g_tracked; }
size_t sim::live_bytes() { return g_tracked_bytes; }
uint64_t sim::allocation_mark() { return g_seq; }
std::string sim::allocation_report(uint64_t since) // the commonest stacks of the live blocks allocated since the mark
{
    InCore ic; struct G { size_t n = 0, bytes = 0; const Block* b = nullptr; }; std::map<std::vector<void*>, G> by;
    for (auto& x : *g_allocs) if (x.second.seq > since) { auto& g = by[std::vector<void*>(x.second.frames, x.second.frames + x.second.nf)]; g.n++; g.bytes += x.second.n; g.b = &x.second; }
    std::vector<G> v; for (auto& x : by) v.push_back(x.second); std::sort(v.begin(), v.end(), [](const G& a, const G& b) { return a.bytes != b.bytes ? a.bytes > b.bytes : a.b->seq < b.b->seq; });
    std::string r; for (size_t i = 0; i < v.size() && i < 3; ++i)
    {
        r += (i ? "; " : "") + std::to_string(v[i].n) + " blocks of " + std::to_string(v[i].b->n) + " bytes allocated in";
        int shown = 0; for (int k = 2; k < v[i].b->nf && shown < 3; ++k)
        {
            Dl_info d; if (!dladdr(v[i].b->frames[k], &d) || !d.dli_sname) continue;
            int st; char* m = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string nm = m ? m : d.dli_sname; free(m);
            if (nm.compare(0, 5, "std::") == 0 || nm.find("__gnu_cxx") == 0) continue;
            r += " <- " + nm.substr(0, 90); shown++;
        }
    }
    return r;
}

// ------------------------------------------------------------ allocation failures
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
static void* alloc_nt(size_t n, size_t align = 0) noexcept
{
    if (self && self->alloc_faults && !self->in_core && !sim::detail::g_ending && cfg.p[F_ALLOC] > 0)
    {
        bool f; { InCore ic; f = fault(F_ALLOC); }
        if (f) return nullptr;
    }
    if (!n) n = 1;
    void* p = nullptr;
    if (!align) p = malloc(n);
    else if (posix_memalign(&p, align < sizeof(void*) ? sizeof(void*) : align, n)) p = nullptr;
    if (g_tracking) tracked_new(p, n);
    return p;
}
static void* alloc(size_t n, size_t align = 0) { void* p = alloc_nt(n, align); if (!p) throw std::bad_alloc(); return p; }
using Al = std::align_val_t; using Nt = const std::nothrow_t&;
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, Nt) noexcept { return alloc_nt(n); }
void* operator new[](size_t n, Nt) noexcept { return alloc_nt(n); }
void* operator new(size_t n, Al a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, Al a) { return alloc(n, (size_t)a); }
void* operator new(size_t n, Al a, Nt) noexcept { return alloc_nt(n, (size_t)a); }
void* operator new[](size_t n, Al a, Nt) noexcept { return alloc_nt(n, (size_t)a); }
static void release(void* p) noexcept { if (g_tracking) tracked_delete(p); free(p); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, Nt) noexcept { release(p); }
void operator delete[](void* p, Nt) noexcept { release(p); }
void operator delete(void* p, Al) noexcept { release(p); }
void operator delete[](void* p, Al) noexcept { release(p); }
void operator delete(void* p, size_t, Al) noexcept { release(p); }
void operator delete[](void* p, size_t, Al) noexcept { release(p); }
void operator delete(void* p, Al, Nt) noexcept { release(p); }
void operator delete[](void* p, Al, Nt) noexcept { release(p); }
