// World "async": asynchronous stdin sessions on an asio scheduler, with other work on it (C21; C13, C15, C22, C23 for async sessions).
#include "flavour.h"
#include "model.h"
#include <iostream>
using namespace sim; using namespace model;

namespace {
struct St {
    NodeP tree; std::unique_ptr<Sess> m; bool closed = false, throw_enter = false; string partial; Capture out; // model and output of the live session
    vector<string> log; size_t log_base = 0; vector<vector<string>> stored; string typed; bool tty = true, file = false, stop_on_exit = true, glob_enter = false, ended_input = false;
    int session = 0; bool alive = false, in_run = false, destroyed = false, app_done = false, usable = false, sched_up = false; int app = -1, gen = 0, enters = 0, ticks_posted = 0, ticks_run = 0, bcasts = 0;
    Capture bare; uint64_t input_faults = 0;
};
St* X;
vector<int> operators;
int live_operators() { int n = 0; for (int t : operators) if (!thread_done(t)) n++; return n; }
struct RecStorage : cli::HistoryStorage {
    void Store(const vector<string>& c) override { NoPreempt np; X->stored.push_back(c); }
    vector<string> Commands() const override { return {}; }
    void Clear() override {}
};
void on_log(const string& l)
{
    NoPreempt np; St& x = *X; note("handler " + l);
    if (self_id() != x.app || !x.in_run) violation("C21,C01", "wrong-thread", "handler \"" + l + "\" ran on a thread that is not running the scheduler");
    if (!x.alive) violation("C23,C21", "dead-session", "handler \"" + l + "\" ran after the session was destroyed");
    size_t k = x.log.size() - x.log_base; x.log.push_back(l);
    if (k >= x.m->log.size() || x.m->log[k] != l) violation("C21,C22,C13", "wrong-command", "call " + std::to_string(k + 1) + " is \"" + esc(l) + "\" but the lines received ask for " + (k < x.m->log.size() ? "\"" + esc(x.m->log[k]) + "\"" : "no further call"));
}
void model_byte(char c)
{
    St& x = *X; if (!x.m || x.closed) return;
    if (c != '\n') { x.partial += c; return; }
    string l; l.swap(x.partial); x.m->feed(l); if (x.m->exited) x.closed = true; x.m->prompt();
}
void type_bytes(const string& b) // caller holds NoPreempt
{
    X->typed += b; note("typed " + esc(b.substr(0, 80))); if (X->alive) for (char c : b) model_byte(c);
    stdin_type(b);
}
template <class F> struct Ctx;
void scenario()
{
    St st; X = &st; hooks() = AppHooks(); bool c23 = focus_is("C23"), c22 = focus_is("C22"), c15 = focus_is("C15");
    st.tty = chance(W, 0.6); st.file = !st.tty && chance(W, 0.3); stdin_reset(st.tty, st.file);
    { double p = pick(W, { 0.02, 0.1, 0.3 }); if (chance(W, 0.6)) cfg.p[F_EINTR] = p; if (chance(W, 0.4)) cfg.p[F_SPURIOUS] = p; if (chance(W, 0.5)) cfg.p[F_SHORT_READ] = p; if (chance(W, 0.4)) cfg.p[F_EAGAIN] = p; }
    st.tree = std_tree(); std::function<void(NodeP)> everywhere = [&](NodeP n) {
        for (auto k : n->kids) if (k->menu) everywhere(k);
        for (string nm : { "=kill", "bcast" }) { NodeP k = add(n, leaf(nm, [nm](const Words& a, Effect& f) { if (!a.empty()) return false; f.log = nm; if (nm == "bcast") f.out = "{all}\n"; return true; })); k->desc = "none"; }
    };
    everywhere(st.tree);
    bool custom_exc = chance(W, 0.4), custom_wrong = chance(W, 0.3), own_exit = chance(W, 0.6), glob_exit = chance(W, 0.8), external = chance(W, 0.3), with_bare = chance(W, c15 ? 0.9 : 0.3), createfail = chance(W, c23 ? 0.15 : 0.05), dupfail = choose(W, 2); st.glob_enter = chance(W, 0.6);
    int sessions = (int)range(W, 1, c23 ? 4 : 2);
    enum End { EXITCMD, POSTED, STOPPED, NONSTOP, KILLCMD, STDINEOF };
    vector<int> ends; for (int i = 0; i < sessions; ++i) ends.push_back(c23 ? pick(W, { (int)POSTED, (int)POSTED, (int)KILLCMD, (int)STOPPED, (int)EXITCMD, (int)STDINEOF }) : pick(W, { (int)EXITCMD, (int)STOPPED, (int)POSTED, (int)NONSTOP, (int)STDINEOF, (int)STDINEOF, (int)KILLCMD }));
    for (int i = 0; i < sessions; ++i) if (ends[(size_t)i] == STDINEOF) { sessions = i + 1; ends.resize((size_t)sessions); }
    std::ostream devnull(nullptr); auto* oc = std::cout.rdbuf(&st.out.b); struct Restore { std::streambuf* a; ~Restore() { std::cout.rdbuf(a); std::cout.clear(); } } restore{ oc };
    AsioScheduler* sc = nullptr; cli::Cli* cli_ = nullptr; std::unique_ptr<AsioAsyncSession> ses; std::function<void()> create, destroy;
    Typist ty; ty.root = st.tree.get(); ty.specials = { "bcast", "nap 300", "help" }; if (c15) ty.specials.insert(ty.specials.end(), 3, "bcast"); if (c22) ty.specials.insert(ty.specials.end(), { "fail", "failc", "faild 1", "sub fail" });
    if (st.file) // everything is there from the start
    {
        sessions = 1; ends = { pick(W, { (int)EXITCMD, (int)STDINEOF, (int)STDINEOF }) }; uint32_t n = chance(W, 0.06) ? range(W, 60, 400) : choose(W, 20); string all;
        for (uint32_t i = 0; i < n; ++i) all += ty.cmdline() + "\n";
        if (ends[0] == EXITCMD) all += "exit\necho late\n"; else if (choose(W, 2)) all += "echo cut";
        type_bytes(all); stdin_eof();
    }
    spawn_app("program", [&] {
        { NoPreempt np; st.app = self_id(); }
        hooks().log = [](std::ostream&, const string& l) { on_log(l); };
        hooks().special = [&](std::ostream&, const string& n, unsigned long) {
            if (n == "=kill") sc->Post([&] { destroy(); });
            if (n == "bcast") { { NoPreempt np; st.bcasts++; } cli::Cli::cout() << "{all}\n"; }
        };
        auto root = std::make_unique<cli::Menu>("cli"); install(*root, st.tree);
        cli::Cli cl(std::move(root), std::make_unique<RecStorage>()); cli_ = &cl;
        if (st.glob_enter) cl.EnterAction([](std::ostream& o) { bool t; { NoPreempt np; X->enters++; t = X->throw_enter; } o << "Welcome\n"; if (t) { count_fault(F_HANDLER_THROW); throw 5; } });
        cl.ExitAction([&](std::ostream& o) { on_log("exit"); if (glob_exit) o << "Goodbye\n"; bool s; { NoPreempt np; s = st.stop_on_exit; } if (s) sc->Stop(); });
        if (custom_exc) cl.StdExceptionHandler([&](std::ostream& o, const string& c, const std::exception& e) { on_log(string("exception:") + e.what()); o << "exc(" << c << "," << e.what() << ")\n"; });
        if (custom_wrong) cl.WrongCommandHandler([&](std::ostream& o, const string& c) { on_log("wrong:" + c); o << "wrong(" << c << ")\n"; });
        std::unique_ptr<cli::CliSession> bare; if (with_bare) bare.reset(new cli::CliSession(cl, st.bare));
        create = [&] {
            bool failing; { NoPreempt np; if (st.session >= sessions || st.alive) return; failing = createfail && (dupfail || st.glob_enter) && st.session == 0; if (failing) { note("create a session that fails"); if (dupfail) cfg.p[F_DUP_FAIL] = 1; else st.throw_enter = true; } }
            if (failing)
            {
                bool thrown = false; size_t fds = 0;
                for (int i = 0; i < 2; ++i) // the first one makes asio open the descriptors of its reactor
                {
                    try { AsioAsyncSession bad(*sc, cl); thrown = false; } catch (const std::exception&) { thrown = true; } catch (int) { thrown = true; }
                    NoPreempt np; if (i == 0) fds = open_fds().size();
                }
                NoPreempt np; cfg.p[F_DUP_FAIL] = 0; st.throw_enter = false; note("the creation failed");
                if (!thrown) violation("C23,C21", "create-failure", "the session did not report that it could not be created");
                if (stdin_refs() != 1 || open_fds().size() != fds || bad_closes()) violation("C23,C21,C28", "fd-leak", "descriptors leak when the session cannot be created");
                if (!stdin_open()) violation("C21,C23", "stdin-closed", "stdin was closed");
                probe(dupfail ? "no_dup" : "enter_action_throws");
            }
            {
                NoPreempt np; if (st.session >= sessions || st.alive) return; st.session++; st.enters = 0; st.out.b.s.clear(); st.partial.clear(); st.closed = false; st.log_base = st.log.size(); st.stored.clear();
                st.m.reset(new Sess(st.tree.get(), 1)); auto& m = *st.m; m.custom_exc = custom_exc; m.custom_wrong = custom_wrong;
                m.exit_out = string(own_exit ? "own bye\n" : "") + (glob_exit ? "Goodbye\n" : ""); m.exit_log = own_exit ? vector<string>{ "own", "exit" } : vector<string>{ "exit" };
                st.stop_on_exit = ends[(size_t)st.session - 1] != NONSTOP;
                if (st.glob_enter) m.print("Welcome\n");
                m.prompt();
                size_t n = std::min(stdin_pending(), st.typed.size()); string p = st.typed.substr(st.typed.size() - n); if (n) probe("typed_before_session");
                for (char c : p) model_byte(c);
                st.alive = true; st.destroyed = false; note("create session " + std::to_string(st.session));
                if (stdin_refs() != 1) violation("C21,C23", "fd-leak", "a duplicate of stdin is open before the session is created");
            }
            ses.reset(new AsioAsyncSession(*sc, cl));
            if (own_exit) ses->ExitAction([&](std::ostream& o) { on_log("own"); o << "own bye\n"; });
            NoPreempt np; if (st.glob_enter && st.enters != 1) violation("C13", "enter-action", "the global enter action ran " + std::to_string(st.enters) + " times");
        };
        destroy = [&] {
            {
                NoPreempt np; if (!ses) return; note("destroy session"); count_fault(F_DESTROY);
                if (st.m->exited)
                {
                    if (st.log.size() - st.log_base != st.m->log.size()) violation("C13,C21", "exit-missing", "the exit was not processed");
                    string want; for (auto& r : st.m->rows) want += r + "\n"; want += st.m->rowhead;
                    if (st.out.b.s != want) violation("C13,C21", "exit-output", "at the exit: " + diff(st.out.b.s, want));
                    if (st.stored != st.m->stored) violation("C13,C16,C21", "store", "the commands given to the history storage at exit differ from the commands entered");
                }
            }
            ses.reset();
            NoPreempt np; st.alive = false; st.destroyed = true; note("session destroyed");
            if (stdin_refs() != 1) violation("C21,C23", "fd-leak", "a duplicate of stdin stays open after the session was destroyed");
            if (bad_closes()) violation("C21,C23", "double-close", "a descriptor was closed twice");
            if (!stdin_open()) violation("C21,C23", "stdin-closed", "stdin was closed");
        };
        for (;;)
        {
            { NoPreempt np; if (st.session >= sessions) break; }
            std::unique_ptr<asiox::io_context> ctx; if (external) ctx.reset(new asiox::io_context);
            {
                std::unique_ptr<asiox::executor_work_guard<asiox::io_context::executor_type>> guard; if (external) guard.reset(new asiox::executor_work_guard<asiox::io_context::executor_type>(ctx->get_executor()));
                std::unique_ptr<AsioScheduler> own(external ? new AsioScheduler(*ctx) : new AsioScheduler()); sc = own.get();
                { NoPreempt np; st.usable = true; st.gen++; }
                create();
                { NoPreempt np; st.sched_up = true; st.in_run = true; }
                try { sc->Run(); } catch (const std::exception& e) { NoPreempt np; violation("C21,C22,C23", "exception-escapes", string("the scheduler threw ") + e.what()); }
                { NoPreempt np; st.sched_up = st.in_run = false; }
                destroy();
                { NoPreempt np; st.usable = false; }
                block_until("operators", [] { return live_operators() == 0; });
                sc = nullptr; NoPreempt np; st.ticks_posted = st.ticks_run = 0; // those not run before Stop are dropped
            }
        }
        bare.reset();
        NoPreempt np; st.app_done = true; note("program ends");
    });
    mark_env(); operators.clear();
    auto operate = [&](std::function<void()> f, uint64_t after_us = 0) {
        int gen = st.gen;
        operators.push_back(spawn_app("operator", [f = std::move(f), after_us, gen] { if (after_us) sleep_us(after_us); { NoPreempt np; if (!X->usable || X->gen != gen) return; } f(); }));
    };
    auto settle = [&](const char* when) {
        wait_idle();
        if (!st.alive || !st.m) return;
        if (st.ticks_run != st.ticks_posted) violation("C21,C23,C01", "starved", string(when) + ": " + std::to_string(st.ticks_posted - st.ticks_run) + " of the other tasks on the scheduler have not run");
        if (st.closed) return;
        if (!st.ended_input && stdin_pending() > (st.tty ? st.partial.size() : 0)) violation("C21", "input-not-read", string(when) + ": the session is idle although " + std::to_string(stdin_pending()) + " bytes are not read");
        size_t done = st.log.size() - st.log_base;
        if (done != st.m->log.size()) violation("C21,C22,C13", "command-lost", string(when) + ": " + std::to_string(done) + " calls, the lines received ask for " + std::to_string(st.m->log.size()) + ", next \"" + esc(st.m->log[done]) + "\"");
        string want; for (auto& r : st.m->rows) want += r + "\n"; want += st.m->rowhead;
        if (st.out.b.s != want) violation("C21,C22,C13,C15", "output", string(when) + ": " + diff(esc(st.out.b.s), esc(want)) + " / " + diff(st.out.b.s, want));
        probe("output_compared");
    };
    auto tick = [&] { if (st.usable) operate([&] { { NoPreempt np; st.ticks_posted++; } sc->Post([&] { NoPreempt np; st.ticks_run++; }); }); };
    auto burst = [&] {
        string l = ty.cmdline(); if (choose(W, 8) == 1 && !st.tty && (l.compare(0, 5, "echo ") == 0 || l.compare(0, 4, "say ") == 0)) l += "\r"; if (choose(W, 24) == 1) l = "say " + string(pick(W, { 250u, 520u, 600u, 1030u, 5000u }), 'x'); if (choose(W, 40) == 1) l += string("\0z", 2);
        l += "\n"; if (choose(W, 12) == 1) l.pop_back();
        bool frag = choose(W, 2);
        if (!frag) { NoPreempt np; type_bytes(l); return; }
        for (size_t b = 0; b < l.size(); ) { size_t n = 1 + choose(W, (uint32_t)std::min<size_t>(l.size() - b, l.size() > 100 ? 2000 : 8)); { NoPreempt np; type_bytes(l.substr(b, n)); } b += n; if (choose(W, 2)) sleep_us(choose(W, 100)); }
    };
    auto line = [&](const string& l) { NoPreempt np; type_bytes(l + "\n"); };
    for (int i = 0; i < sessions; ++i)
    {
        if (choose(W, 4) == 1 && !st.file && st.session == i && !st.alive) line("echo early");
        if (i > 0 && st.sched_up && st.session == i && !st.alive)
        {
            if (choose(W, 3)) { probe("recreated_on_same_scheduler"); operate([&] { sc->Post([&] { create(); }); }); }
            else operate([&] { sc->Stop(); });
        }
        if (!block_until("session", [&] { return st.session >= i + 1; }, 5000000)) violation("C21,C23", "program-hangs", "the program does not get to its next session");
        int e = ends[(size_t)i]; tick();
        auto wait_destroyed = [&] { if (!block_until("destruction", [&] { return st.destroyed || st.session > i + 1; }, 5000000)) violation("C23,C21,C13", "not-ended", "the session was not destroyed in bounded time"); };
        uint64_t bomb = 0; if ((e == POSTED || e == STOPPED) && choose(W, 2)) bomb = 1 + choose(W, 1500);
        if (bomb) operate([&, e] { { NoPreempt np; note("operator ends the session"); } if (e == POSTED) sc->Post([&] { destroy(); }); else sc->Stop(); }, bomb);
        int bursts = st.file ? 0 : (int)range(W, 1, 12);
        for (int b = 0; b < bursts && st.alive && !st.closed; ++b)
        {
            burst(); if (choose(W, 3) == 1) tick();
            if (choose(W, 2)) { if (!bomb) settle("after typing"); else sleep_us(choose(W, 300)); } else sleep_us(choose(W, 200));
        }
        if (!bomb && choose(W, 2)) settle("before the end");
        if (bomb) wait_destroyed();
        else if (e == EXITCMD || e == NONSTOP)
        {
            if (!st.file) { if (!st.partial.empty()) line(""); line("exit"); if (e == EXITCMD && choose(W, 2)) line("echo late"); }
            if (e == EXITCMD) wait_destroyed();
            else
            {
                wait_idle();
                if (st.log.size() - st.log_base != st.m->log.size()) violation("C13,C21", "exit-missing", "the exit was not processed");
                if (choose(W, 2)) operate([&] { sc->Post([&] { destroy(); }); }); else operate([&] { sc->Stop(); });
                wait_destroyed();
            }
        }
        else if (e == STDINEOF)
        {
            if (!st.file)
            {
                if (choose(W, 2)) line("say before");
                if (choose(W, 2)) { NoPreempt np; type_bytes(choose(W, 2) ? "exit" : "echo cut"); }
                if (choose(W, 3) == 1) stdin_error(); else stdin_eof();
                note("end of input");
            }
            st.ended_input = true; settle("after the end of the input"); uint64_t r = stdin_reads();
            tick(); tick(); settle("with other work after the end of the input");
            if (stdin_reads() > r + 5) violation("C21", "eof-spin", "the end of the input is read over and over");
            if (!st.alive) violation("C21", "ended", "the scheduler ended with the input");
            if (choose(W, 2)) operate([&] { sc->Post([&] { destroy(); }); }); else operate([&] { sc->Stop(); });
            wait_destroyed();
        }
        else if (e == KILLCMD) { if (!st.partial.empty()) line(""); line("=kill"); if (choose(W, 2)) line("echo late"); wait_destroyed(); }
        else
        {
            if (choose(W, 2)) burst();
            if (e == POSTED) operate([&] { sc->Post([&] { destroy(); }); }); else operate([&] { sc->Stop(); });
            wait_destroyed();
        }
        if (st.sched_up && st.destroyed && st.session == i + 1 && !st.ended_input && !st.file && choose(W, 2))
        {
            size_t n = st.log.size(); uint64_t rd = stdin_reads(); line("echo dead"); tick();
            wait_idle();
            if (stdin_reads() != rd || st.log.size() != n) violation("C23,C21", "reads-after-destruction", "stdin is still read after the session was destroyed");
            if (st.sched_up && st.ticks_run != st.ticks_posted) violation("C23,C21", "starved", "the scheduler does not run its other work after the session was destroyed");
            probe("typed_after_destruction");
        }
    }
    wait_idle();
    if (!st.app_done) { operate([&] { sc->Stop(); }); wait_idle(); }
    if (!st.app_done) violation("C21,C23,C02", "program-hangs", "the program does not end after Stop");
    if (with_bare) { string want; for (int i = 0; i < st.bcasts; ++i) want += "{all}\n"; if (st.bare.b.s != want) violation("C15", "broadcast", "another session got \"" + esc(st.bare.b.s) + "\" instead of " + std::to_string(st.bcasts) + " shared outputs"); }
    stat_add("bytes_typed", st.typed.size()); stat_add("handler_calls", st.log.size()); stat_add("sessions", (uint64_t)st.session); stat_add("other_tasks", (uint64_t)st.ticks_run);
}
Reg r1("async-" FLAV, scenario);
} // namespace
