// World "sched": schedulers under posting threads (C01, C02, C03; C04 with the race runtime).
#include "flavour.h"
#include <stdexcept>
#include <cassert>
using namespace sim;

namespace {
struct TaskError { int id; };          // not a std::exception
struct TaskStdError : std::runtime_error { int id; explicit TaskStdError(int i) : std::runtime_error("task"), id(i) {} };

struct TaskRec { int poster = 0; int seq = 0; int kind = 0; int state = 0; /*0 posting 1 accepted 2 refused*/ int started = 0, finished = 0; int thread = -1; uint64_t posted_at = 0; bool after_stop = false; };
struct Hist {
    std::vector<TaskRec> t; std::map<int, int> in_post; // thread -> depth
    std::map<int, int> next_seq, last_seq;            // per poster
    int running = 0, depth = 0; int runner = -1; bool runner_in_call = false;
    int call_tasks = 0; // depth-1 tasks in the current step/poll call
    bool stop_returned = false, stop_called = false; int started_after_stop = 0; bool asio = false; int thrown = 0; int caught = 0;
    int last_thrown = -1; int payload_bad = 0; bool posters_done = false; int posters_left = 0; bool step_call = false;
};
Hist* H;

struct Ops {                           // type-erased scheduler
    cli::Scheduler* s; std::function<void()> run, stop; std::function<int()> exec, poll; std::function<bool()> stopped; bool loop;
};
Ops* O;

std::string tn(int id) { auto& r = H->t[(size_t)id]; return "task " + std::to_string(id) + " (poster " + std::to_string(r.poster) + " #" + std::to_string(r.seq) + ")"; }

void post_task(int kind, bool faults);

struct Payload { // large enough not to fit the small buffer; verifies its own integrity
    int id; std::string text; char pad[40];
    explicit Payload(int i) : id(i), text("payload-of-task-" + std::to_string(i) + "-abcdefghijklmnopqrstuvwxyz") { for (int k = 0; k < 40; ++k) pad[k] = (char)(i + k); }
    bool ok() const { if (text != "payload-of-task-" + std::to_string(id) + "-abcdefghijklmnopqrstuvwxyz") return false; for (int k = 0; k < 40; ++k) if (pad[k] != (char)(id + k)) return false; return true; }
};

void body(int id)
{
    int kind;
    {
        NoPreempt np;
        TaskRec& r = H->t[(size_t)id]; kind = r.kind;
        note("run " + tn(id));
        r.started++; r.thread = self_id();
        if (r.started > 1) violation("C01,C03", "task-run-twice", tn(id) + " was executed " + std::to_string(r.started) + " times");
        if (r.state == 2) violation("C01", "refused-task-run", tn(id) + ": Post reported failure but the task was executed");
        if (H->in_post[self_id()]) violation("C01", "run-inside-post", tn(id) + " was executed inside a call to Post");
        if (self_id() != H->runner || !H->runner_in_call) violation("C01", "wrong-thread", tn(id) + " was executed on thread " + std::to_string(self_id()) + " which is not running the scheduler");
        if (r.seq <= H->last_seq[r.poster] ) violation("C01,C03", "order", tn(id) + " ran after #" + std::to_string(H->last_seq[r.poster]) + " of the same poster");
        for (size_t k = 0; k < H->t.size(); ++k) { auto& q = H->t[k]; if (q.poster == r.poster && q.seq < r.seq && q.state == 1 && !q.started) violation("C01,C03", "skipped", tn(id) + " ran although " + tn((int)k) + " posted earlier by the same thread has not"); }
        H->last_seq[r.poster] = r.seq;
        if (H->depth == 0) { H->call_tasks++; if (H->step_call && H->call_tasks > 1) violation("C01,C03", "step-runs-two", "one single step or poll ran two tasks"); }
        if (H->stop_returned) { H->started_after_stop++; if (H->started_after_stop > 1) violation("C02", "run-after-stop", tn(id) + " was started after Stop had returned"); }
        H->running++; H->depth++;
        if (H->running > 1 && H->depth != H->running) violation("C01", "overlap", "two tasks run at the same time");
    }
    struct Done { int id; ~Done() { NoPreempt np; H->t[(size_t)id].finished++; H->running--; H->depth--; } } done{ id };
    int d; { NoPreempt np; d = H->depth; }
    switch (kind)
    {
        case 1: post_task(0, false); break;
        case 2: post_task((int)choose(W, 4), false); post_task((int)choose(W, 4), false); break;
        case 3: { { NoPreempt np; H->thrown++; H->last_thrown = id; } count_fault(F_HANDLER_THROW); if (choose(W, 2)) throw TaskStdError(id); throw TaskError{ id }; }
        case 4: yield(); break;
        case 5: // nested step or poll of the scheduler
            if (d < 3)
            {
                post_task((int)choose(W, 3), false);
                bool step = choose(W, 2) != 0; size_t before, after; { NoPreempt np; before = 0; for (auto& q : H->t) before += (size_t)q.started; }
                bool st = O->stopped();
                if (step) O->exec(); else O->poll();
                { NoPreempt np; after = 0; for (auto& q : H->t) after += (size_t)q.started; note("nested step"); }
                NoPreempt np; if (!st && !H->stop_called && after == before) violation("C03", "nested-step", "a nested step of the scheduler with a pending task ran nothing");
                probe("nested_step");
            }
            break;
        case 6: sleep_us(choose(W, 300)); break;
        case 7: { bool st = O->stopped(); NoPreempt np; if (st && !H->stop_called) violation("C02", "stopped-early", "Stopped() is true although nobody called Stop"); break; }
        case 8: { NoPreempt np; H->stop_called = true; note("task calls Stop"); } O->stop(); { NoPreempt np; H->stop_returned = true; } if (!O->stopped()) violation("C02", "not-stopped", "Stopped() is false after Stop() returned"); probe("stop_from_task"); break;
        case 9: post_task(3, false); break;
    }
}
int poster_key() { return self_id(); }

void post_task(int kind, bool faults)
{
    int id; bool big = choose(W, 3) == 1;
    {
        NoPreempt np;
        id = (int)H->t.size(); TaskRec r; r.poster = poster_key(); r.seq = ++H->next_seq[r.poster]; r.kind = kind; r.after_stop = H->stop_called; H->t.push_back(r);
        H->in_post[self_id()]++; note("post " + tn(id) + " kind " + std::to_string(kind));
    }
    bool ok = true;
    try
    {
        std::function<void()> f;
        if (big) { Payload p(id); f = [p] { if (!p.ok()) violation("C01", "payload", "the function object of a task was damaged"); body(p.id); }; }
        else f = [id] { body(id); };
        if (faults) { AllocFaults af; O->s->Post(f); }
        else O->s->Post(f);
    }
    catch (const std::bad_alloc&) { ok = false; probe("post_refused"); if (!faults) violation("C01", "post-throws", "Post threw bad_alloc without an allocation failure"); }
    NoPreempt np;
    H->in_post[self_id()]--;
    H->t[(size_t)id].state = ok ? 1 : 2;
    if (!ok) { H->t[(size_t)id].seq = H->next_seq[poster_key()]; if (H->t[(size_t)id].started) violation("C01", "refused-task-run", tn(id) + ": Post reported failure but the task was executed"); }
}

// after a task has thrown, being unable to go on breaks C03 as well
std::string tags(const char* t) { return std::string(t) + (H->thrown ? ",C03" : ""); }

void runner(int mode)
{
    { NoPreempt np; H->runner = self_id(); }
    for (int guard = 0; guard < 5000; ++guard)
    {
        int m = mode == 3 ? (int)choose(W, 3) : mode;
        int ret = -1; bool was_stopped, pending; int thrown0;
        { NoPreempt np; was_stopped = H->stop_returned; pending = false; for (auto& q : H->t) if (q.state == 1 && !q.started) pending = true; H->call_tasks = 0; H->runner_in_call = true; H->step_call = m != 0; thrown0 = H->thrown; }
        bool caught = false; int cid = -1;
        try { if (m == 0) { O->run(); } else if (m == 1) ret = O->exec(); else ret = O->poll(); }
        catch (const TaskStdError& e) { caught = true; cid = e.id; }
        catch (const TaskError& e) { caught = true; cid = e.id; }
        catch (const std::exception& e) { violation("*", "foreign-exception", std::string("the scheduler threw ") + e.what()); }
        bool stop = false;
        {
            NoPreempt np; H->runner_in_call = false; note(std::string(m == 0 ? "Run" : m == 1 ? "ExecOne" : "PollOne") + (caught ? " threw" : " returned") + " after " + std::to_string(H->call_tasks));
            if (caught) { H->caught++; if (cid != H->last_thrown) violation("C03", "wrong-exception", "the exception of another task arrived"); }
            if (H->thrown != H->caught && (int)H->thrown - thrown0 > (caught ? 1 : 0)) {
                // nested steps may let an exception pass through several tasks: one exception, one catch
                if (H->thrown - thrown0 > 1 || !caught) violation("C03", "exception-lost", "a task threw but the call running the scheduler returned normally");
            }
            if (m == 0 && !caught && !H->stop_called) violation(tags("C02,C01").c_str(), "run-returns", "Run returned although nobody called Stop");
            if (m != 0 && !was_stopped && pending && H->call_tasks == 0 && !H->stop_called) violation(tags("C01,C02").c_str(), "pending-not-run", "a step or poll with a task pending ran nothing");
            if (m == 1 && !caught && !H->stop_called && H->call_tasks != 1) violation(tags("C01,C02").c_str(), "step-ran-nothing", "ExecOne returned without running a task and without Stop");
            if (ret >= 0 && !caught) // bool result of the built-in loop
            {
                if (ret == 1 && H->call_tasks != 1) violation("C01", "step-result", "a step reported a task but ran " + std::to_string(H->call_tasks));
                if (ret == 0 && H->call_tasks != 0) violation("C01", "step-result", "a step reported no task but ran one");
                if (ret == 0 && m == 1 && !H->stop_called) violation("C02", "step-result", "ExecOne reported stop although nobody called Stop");
            }
            stop = H->stop_returned || (m == 0 && !caught);
            if (was_stopped && H->call_tasks) { /* counted in body */ }
        }
        if (stop) break;
        if (m == 2) sleep_us(20 + choose(W, 50));
    }
    // after Stop: further calls run nothing and return at once
    { NoPreempt np; H->call_tasks = 0; H->runner_in_call = true; H->step_call = false; }
    if (H->stop_returned)
    {
        if (O->loop) { if (O->exec()) violation("C02", "run-after-stop", "ExecOne reported a task after Stop"); if (O->poll()) violation("C02", "run-after-stop", "PollOne reported a task after Stop"); }
        try { O->run(); } catch (...) { violation("C02", "run-after-stop", "Run threw after Stop"); }
    }
    NoPreempt np; H->runner_in_call = false; H->runner = -2; note("runner ends");
}

void scenario(Ops& ops)
{
    O = &ops; Hist hist; H = &hist; hist.asio = !ops.loop;
    bool c3 = focus_is("C03"), c2 = focus_is("C02");
    if (chance(W, 0.5)) { cfg.p[F_SPURIOUS] = 0.1; cfg.p[F_EINTR] = 0.1; }
    if (chance(W, 0.3)) cfg.p[F_ALLOC] = 0.05;
    int np = (int)range(W, 1, 4); bool many = chance(W, 0.02); if (many) probe("many_tasks"); int mode = pick(W, { 0, 1, 2, 3 });
    bool early_stop = chance(W, c2 ? 0.6 : 0.2); bool throws = chance(W, c3 ? 0.9 : 0.3), nested = chance(W, c3 ? 0.7 : 0.3), stop_task = early_stop && chance(W, 0.3);
    auto gen_kind = [=]() -> int {
        std::vector<int> k{ 0, 0, 1, 4, 2, 6, 7 };
        if (throws) { k.push_back(3); k.push_back(9); }
        if (nested) { k.push_back(5); k.push_back(5); }
        return pick(W, k);
    };
    hist.posters_left = np;
    bool pre = chance(W, 0.4); // tasks posted before anybody runs the scheduler
    if (pre) { int n = (int)(many ? range(W, 100, 1300) : range(W, 1, 4)); for (int i = 0; i < n; ++i) post_task(gen_kind(), cfg.p[F_ALLOC] > 0); }
    for (int p = 0; p < np; ++p)
    {
        int n = (int)(many ? range(W, 20, 200) : range(W, 1, 7)); uint64_t lag = choose(W, 3) ? choose(W, 60) : 0; bool stops = early_stop && p == np - 1 && !stop_task, asks = chance(W, focus_is("C04") ? 0.7 : 0.3);
        spawn_app("poster", [=] {
            if (lag) sleep_us(lag * 10);
            for (int i = 0; i < n; ++i)
            {
                int k = gen_kind(); if (stop_task && p == 0 && i == n - 1) k = 8;
                post_task(k, cfg.p[F_ALLOC] > 0 && k != 8);
                if (choose(W, 3) == 1) sleep_us(choose(W, 200));
                if (asks && choose(W, 2)) { bool called; { NoPreempt g; called = H->stop_returned; } bool st = ops.stopped(); NoPreempt g; if (st ? !H->stop_called : called) violation("C02", "stopped-wrong", st ? "Stopped() is true although nobody called Stop" : "Stopped() is false after Stop() returned"); }
            }
            if (stops)
            {
                { NoPreempt g; H->stop_called = true; note("Stop called"); }
                ops.stop();
                bool st = ops.stopped();
                NoPreempt g; H->stop_returned = true; note("Stop returned");
                if (!st) violation("C02", "not-stopped", "Stopped() is false after Stop() returned");
            }
            NoPreempt g; H->posters_left--;
        });
    }
    int rid = spawn_app("runner", [mode] { runner(mode); });
    mark_env();
    bool always_polling = mode == 2 || mode == 3;
    if (!early_stop)
    {
        auto alldone = [&] { if (hist.posters_left) return false; for (auto& q : hist.t) if (q.state == 0 || (q.state == 1 && !q.finished)) return false; return true; };
        if (always_polling) { if (!block_until("all tasks", alldone, 20000000)) violation("C01,C02", "task-lost", "not all posted tasks were executed while the scheduler was being polled"); }
        else { wait_idle(); if (!alldone()) { std::string s; for (size_t k = 0; k < hist.t.size(); ++k) if (hist.t[k].state != 2 && !hist.t[k].finished) s += " " + tn((int)k); violation("C01,C02,C03", "task-lost", "the scheduler sleeps although tasks are pending:" + s); } }
        for (size_t k = 0; k < hist.t.size(); ++k) if (hist.t[k].state == 1 && hist.t[k].started != 1) violation("C01", "count", tn((int)k) + " executed " + std::to_string(hist.t[k].started) + " times");
        if (chance(W, 0.3)) { if (ops.stopped()) violation(tags("C02").c_str(), "stopped-early", "Stopped() is true although nobody called Stop"); }
        spawn_app("stopper", [&ops] { { NoPreempt g; H->stop_called = true; note("Stop called"); } ops.stop(); bool st = ops.stopped(); NoPreempt g; H->stop_returned = true; note("Stop returned"); if (!st) violation("C02", "not-stopped", "Stopped() is false after Stop() returned"); });
    }
    if (always_polling) { if (!block_until("runner end", [&] { return thread_done(rid) && hist.stop_returned && !hist.posters_left; }, 20000000)) violation("C02", "stop-ignored", "the thread running the scheduler did not return after Stop"); }
    else { wait_idle(); if (!hist.stop_returned) violation("C02", "stop-blocks", "Stop did not return"); if (!thread_done(rid)) violation("C02,C03", "stop-ignored", "the thread running the scheduler did not return after Stop"); }
    if (hist.posters_left) violation("C02", "post-blocks", "Post did not return");
    stat_add("tasks_posted", hist.t.size()); uint64_t ex = 0; for (auto& q : hist.t) ex += (uint64_t)q.started; stat_add("tasks_executed", ex);
    if (hist.caught) stat_add("tasks_thrown", (uint64_t)hist.caught);
}

#ifndef FLAV_SA
void loop_world()
{
    {
        cli::LoopScheduler s;
        Ops o{ &s, [&] { s.Run(); }, [&] { s.Stop(); }, [&] { return (int)s.ExecOne(); }, [&] { return (int)s.PollOne(); }, [&] { return s.Stopped(); }, true };
        scenario(o);
    }
}
#endif
void asio_world()
{
    bool own = chance(W, 0.7);
    bool reactor = chance(W, 0.6); // with the reactor running, waiting happens in epoll instead of a condition variable
    auto go = [&](AsioScheduler& s) {
        std::unique_ptr<asiox::steady_timer> tm; if (reactor) { tm.reset(new asiox::steady_timer(s.AsioContext())); tm->expires_after(std::chrono::hours(1)); }
        Ops o{ &s, [&] { s.Run(); }, [&] { s.Stop(); }, [&] { s.ExecOne(); return -1; }, [&] { s.PollOne(); return -1; }, [&] { return s.Stopped(); }, false };
        scenario(o);
    };
    if (own) { AsioScheduler s; go(s); }
    else { asiox::io_context ctx; auto work = asiox::make_work_guard(ctx); { AsioScheduler s(ctx); go(s); } }
}
Reg r2("sched-" FLAV, asio_world);
#ifndef FLAV_SA
Reg r1("sched-loop", loop_world);
#endif
} // namespace
