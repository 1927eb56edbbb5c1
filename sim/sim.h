// Deterministic simulator: public interface used by the worlds.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <termios.h>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream { W = 0, S = 1, F = 2 }; // workload, schedule, fault
uint32_t choose(Stream s, uint32_t n);          // 0..n-1, 0 = simplest
bool chance(Stream s, double p);                // recorded as 0/1
inline uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return lo + choose(s, hi - lo + 1); }
template <class T> const T& pick(Stream s, const std::vector<T>& v) { return v[choose(s, (uint32_t)v.size())]; }
template <class T> T pick(Stream s, std::initializer_list<T> v) { return *(v.begin() + choose(s, (uint32_t)v.size())); }

// ---------------------------------------------------------------- faults
enum Fault { F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN, F_SPURIOUS, F_ACCEPT_ERR, F_ALLOC, F_PIPE_FAIL, F_DUP_FAIL,
  F_OPEN_FAIL, F_READ_EIO, F_WRITE_ENOSPC, F_WRITE_EIO, F_CRASH, F_DISKFULL, F_RST, F_FIN, F_HUP, F_STDIN_EOF, F_STDIN_EIO,
  F_SIGNAL, F_HANDLER_THROW, F_NET_DELAY, F_SEGMENT, F_SLOW_READER, F_STREAM_FAIL, F_DESTROY, F_WRITE_RST, F_CLOSE_EIO, F_RENAME_FAIL, F_THREAD_FAIL, F_N };
extern const char* fault_name[F_N];
struct Config {
    double p[F_N] = {};          // probability of each fault kind at an eligible point
    uint64_t max_steps = 300000; // scheduling points
    uint64_t tick_ns = 1000;     // simulated time per scheduling point
};
extern Config cfg;
bool fault(Fault f);             // eligible point: true if the fault fires now (counted)
void count_fault(Fault f);       // a fault decided elsewhere happened
void probe(const char* name);    // "this rare situation was reached"

// ---------------------------------------------------------------- verdicts
// tags: comma separated property ids, or "*" = whatever property is being checked
[[noreturn]] void violation(const char* tags, const char* kind, const std::string& msg);
// a violation the committed known-findings file may list under `id`: counted and ignored if listed (returns), else a violation
void known_or_violation(const char* id, const char* tags, const char* kind, const std::string& msg);
[[noreturn]] void end_run();
[[noreturn]] void harness_error(const std::string& msg);
const char* focus();             // property being checked
bool focus_is(const char* id);
void note(const std::string& s); // into the run's narrative (and trace hash)
bool verbose();

// ---------------------------------------------------------------- threads, time
uint64_t now_ns();
int self_id();
void spawn_env(const std::string& name, std::function<void()> fn); // environment actor (client, typist, ...)
void sleep_us(uint64_t us);
void yield();
bool block_until(const char* why, const std::function<bool()>& pred, uint64_t timeout_us = UINT64_MAX); // false on time-out
void wait_idle();                // until nothing but idle waiters could run
bool thread_done(int id);
void at(uint64_t delay_us, std::function<void()> fn); // event
int live_lib_threads();          // threads created by the code under test that have not ended
void set_main_as_env();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
void mark_env();                 // the calling thread is an environment thread
int spawn_app(const std::string& name, std::function<void()> fn);   // a thread of the program under test; returns its id
void kill_app();                 // kill -9: every program thread vanishes where it is, descriptors close
bool app_killed();               // since the last spawn_app of a new incarnation
uint64_t steps();

// allocation failures: while armed on this thread, operator new may throw
struct AllocFaults { AllocFaults(); ~AllocFaults(); };
// memory of the program's threads (not of the harness) that is alive, from track_allocations() on
void track_allocations(); size_t live_allocations(); size_t live_bytes(); uint64_t allocation_mark(); std::string allocation_report(uint64_t since);

// ---------------------------------------------------------------- tty / stdin
struct StdinOpts { bool tty = true; };
void stdin_reset(bool tty, bool file = false); // file: redirected from a regular file (cannot be polled)
int stdin_refs();                            // descriptors open on it
void stdin_type(const std::string& bytes);   // arrives now
void stdin_eof();                            // write end closed / hang-up
void stdin_error();                          // EIO from now on
size_t stdin_pending();                      // bytes not yet read by the program
bool tty_canonical();
bool tty_echo();
termios tty_attr();
void tty_set_attr(const termios&);
uint64_t stdin_reads();                      // number of read calls that returned (incl. EOF)
bool stdin_open();
bool stdin_nonblock(); void stdin_set_nonblock(bool v);

// ---------------------------------------------------------------- descriptors
std::vector<int> open_fds();
int bad_closes();                            // close() of a descriptor not open
struct Listener;

// ---------------------------------------------------------------- network
struct Conn;
class Client {
public:
    // connect; false when nobody listens
    bool connect(unsigned short port);
    // bytes arrive at the server as one segment after delay (order preserved)
    void send(const std::string& data, uint64_t delay_us = 0);
    void fin(uint64_t delay_us = 0);     // half close
    void close(uint64_t delay_us = 0);   // full close: further data from the server is answered by RST
    void rst(uint64_t delay_us = 0);
    // take up to n received bytes
    std::string take(size_t n = SIZE_MAX);
    size_t available() const;
    bool peer_closed() const;            // FIN or RST from the server, all data taken or not
    bool peer_reset() const;
    bool accepted() const;
    size_t unread_by_server() const;     // bytes arrived or in flight, not yet read by the server
    bool connected() const { return (bool)c; }
    bool gone() const;                   // we closed or reset
    std::shared_ptr<Conn> c;
};
void net_set_window(size_t bytes);       // capacity server->client of new connections
bool port_listening(unsigned short port);
size_t backlog(unsigned short port);

// ---------------------------------------------------------------- disk
struct DiskStats { uint64_t bytes_read=0, opens=0, reads=0, writes=0, closes=0, renames=0, removes=0; };
const char* disk_prefix();
bool disk_exists(const std::string& path);
std::string disk_get(const std::string& path);
void disk_put(const std::string& path, const std::string& content);
void disk_remove(const std::string& path);
std::vector<std::string> disk_list();
void disk_set_capacity(size_t bytes);    // SIZE_MAX: unlimited
DiskStats disk_stats();
int disk_open_count();
uint64_t disk_ops();
void disk_crash_at_op(uint64_t n, std::function<void()> onCrash);    // kill the program at its n-th disk operation from now (0: never)
struct DiskFaultRec { std::string op, path; std::string what; };
const std::vector<DiskFaultRec>& disk_fault_log();
void disk_clear_faults();
// fires before every disk operation: (operation, path, is the file truncated & being rewritten)
void disk_reset_incarnation();

// ---------------------------------------------------------------- world registry
struct World { const char* name; void (*run)(); };
void register_world(const char* name, void (*run)());
struct Reg { Reg(const char* n, void (*r)()) { register_world(n, r); } };
void stat_add(const char* name, uint64_t v); // workload statistics for the evidence
} // namespace sim
