// Simulator internals shared by core.cpp, io.cpp, disk.cpp, tsanrt.cpp, runner.cpp
#pragma once
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>

namespace sim { namespace detail {

constexpr uint64_t INF = UINT64_MAX;
constexpr uint32_t MAXCH = 1000000;

enum Op : uint32_t { OP_NONE, OP_CREATE, OP_JOIN, OP_EXIT, OP_LOCK, OP_UNLOCK, OP_TRYLOCK, OP_CWAIT, OP_CSIG, OP_CBCAST, OP_FUTEX,
  OP_YIELD, OP_SLEEP, OP_CLOCK, OP_SELECT, OP_POLL, OP_EPWAIT, OP_EPCTL, OP_READ, OP_WRITE, OP_OPEN, OP_CLOSE, OP_SOCK, OP_ACCEPT,
  OP_CONNECT, OP_SHUTDOWN, OP_SOCKOPT, OP_FCNTL, OP_TTY, OP_PIPE, OP_DISK, OP_BB, OP_ENV, OP_IDLE, OP_ONCE, OP_SEM, OP_MEM, OP_EVENT, OP_NOTE, OP_N };

struct Result {               // shared with the worker process
    uint32_t status;          // 0 running 1 ok 2 violation 3 limit 4 harness error 5 violation of another property
    char tags[64]; char kind[128]; char msg[4096];
    uint64_t hash, steps, sim_ns, switches, blocks;
    uint64_t faults[F_N];
    uint32_t n[3];
    uint32_t nprobe; struct { char name[48]; uint64_t n; } probe[96];
    uint32_t nstat; struct { char name[48]; uint64_t n; } stat[64];
    uint8_t opair[OP_N * OP_N / 8 + 1]; // (operation at switch-out, operation of the thread switched to)
    uint32_t narr_len; char narr[60000];
    uint32_t ch[3][MAXCH];
};
extern Result* R;

enum TState { RUN, BLOCK, IDLE, DONE, DEAD };
struct Thread {
    int id = 0; std::string name; bool env = false; TState st = RUN;
    const std::function<bool()>* pred = nullptr; uint64_t deadline = INF; const char* why = "";
    bool timed_out = false, interrupted = false, interruptible = false;
    int nopreempt = 0, in_core = 0; bool alloc_faults = false;
    uint32_t last_op = 0; int sem = 0;
    void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool detached = false, joined = false;
    std::vector<int*> guards; // initialisations of static locals in progress
    std::function<void()> fn; unsigned long pth = 0; uint64_t prio = 0;
};
extern __thread Thread* self;
extern std::vector<Thread*> threads;

inline bool active() { return self && !self->in_core; }
struct InCore { InCore() { self->in_core++; } ~InCore() { self->in_core--; } };

void point(uint32_t op, uint64_t arg = 0);           // scheduling point
// returns true when pred holds, false on time-out or interruption (self->interrupted)
bool block(uint32_t op, const char* why, const std::function<bool()>& pred, uint64_t deadline_ns = INF, bool interruptible = false);
void event_at(uint64_t t_ns, std::function<void()> fn);
void trace(uint64_t a, uint64_t b = 0, uint64_t c = 0);
uint32_t record(Stream s, uint32_t v);               // records v in generation; in replay returns the recorded one
bool replaying();
uint64_t policy_rng();

// happens-before hooks (race detector)
extern void (*hb_acquire)(int tid, const void* obj);
extern void (*hb_release)(int tid, const void* obj);
extern void (*hb_fork)(int parent, int child);
extern void (*hb_join)(int tid, int child);
extern void (*hb_start)(int tid);
extern void (*hb_harness_release)(int tid);
extern void (*hb_harness_acquire)(int tid);
extern void (*hb_end)();
void block_tick();
inline void acq(const void* o) { if (hb_acquire && self && !self->env) hb_acquire(self->id, o); }
inline void rel(const void* o) { if (hb_release && self && !self->env) hb_release(self->id, o); }

// set-up of one run in a freshly forked child
void start_run(uint64_t seed, const char* focus, bool replay, const std::vector<uint32_t>* in, bool verbose, void (*world)());
void io_reset(); void disk_reset(); void io_kill();
int mutex_lock_sim(void* m); int mutex_unlock_sim(void* m);
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
extern std::map<std::string, void (*)()>& worlds();
}}
#include <dlfcn.h>
#define REAL(name) ([]{ static auto p = (decltype(&::name))dlsym(RTLD_NEXT, #name); return p; }())
