// World "local": a local terminal session with its keyboard thread, a typist, signals, end of input, destruction at any time
// (C05, C06, C07, C08, C13, C22, C24; C04 with the race runtime).
#include "flavour.h"
#include "model.h"
#include <cli/clilocalsession.h>
#include <unistd.h>
using namespace sim; using namespace model;

namespace {
struct Sched { cli::Scheduler* s; std::function<void()> run, stop, step; std::function<bool()> stopped; };

struct St {
    bool sched_up = false, usable = false; int gen = 0; // usable: operators may call the scheduler of this generation
    size_t hist = 100;
    NodeP tree; std::unique_ptr<Sess> m; bool m_closed = false; LocalKeys dec; // model of the live session
    vector<string> log; vector<vector<string>> stored; int session = 0; bool alive = false, in_run = false; int app = -1; size_t log_base = 0;
    termios app_attr{}; bool tty = true; string typed; /* bytes in the order the program gets them */ string pending; uint64_t reads_at_destroy = 0;
    bool stop_on_exit = true, throw_enter = false; bool destroy_asked = false, destroyed = false, create_asked = false; int enters = 0; bool app_done = false; bool handler_active = false; bool escape = false; int restarts = 0; bool naps = false;
};
St* X;
vector<int> operators;
int live_operators() { int n = 0; for (int t : operators) if (!thread_done(t)) n++; return n; }
const char* TAG = "C05,C07,C08,C22,C13";

struct RecStorage : cli::HistoryStorage {
    std::vector<string> v;
    void Store(const std::vector<string>& c) override { { NoPreempt np; X->stored.push_back(c); } v.insert(v.end(), c.begin(), c.end()); }
    std::vector<string> Commands() const override { return {}; }
    void Clear() override { v.clear(); }
};
bool same(const termios& a, const termios& b) { return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc); }
string flags(const termios& t) { char b[96]; snprintf(b, sizeof b, "iflag=%x oflag=%x cflag=%x lflag=%x", t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag); return b; }

void on_log(const string& l)
{
    NoPreempt np;
    note("handler " + l);
    if (self_id() != X->app || !X->in_run) violation("C05,C01", "wrong-thread", "handler \"" + l + "\" ran on a thread that is not running the scheduler");
    if (!X->alive) violation("C07,C23", "dead-session", "handler \"" + l + "\" ran after the session was destroyed");
    size_t k = X->log.size() - X->log_base; X->log.push_back(l);
    if (k >= X->m->log.size() || X->m->log[k] != l)
        violation(TAG, "wrong-command", "handler call number " + std::to_string(k + 1) + " was \"" + l + "\" but the keys typed so far ask for " + (k < X->m->log.size() ? "\"" + X->m->log[k] + "\"" : "no further call"));
}
void check_raw(const char* when)
{
    if (!X->tty) return;
    termios t = tty_attr(), w = X->app_attr; w.c_lflag &= ~(tcflag_t)(ICANON | ECHO);
    if (!same(t, w)) violation("C06", "not-raw", string("while the session waits for input (") + when + ") the terminal has " + flags(t) + " instead of " + flags(w));
}
void check_restored(const char* when, const char* tags)
{
    if (!X->tty) return;
    termios t = tty_attr();
    if (!same(t, X->app_attr)) violation(tags, "not-restored", string(when) + " the terminal has " + flags(t) + " instead of " + flags(X->app_attr));
}
void model_byte(char c) { Key k; if (X->m && !X->m_closed && X->dec.put(c, k)) { X->m->key(k); if (X->m->exited && X->stop_on_exit) X->m_closed = true; } }
void model_start()
{
    X->m.reset(new Sess(X->tree.get(), X->hist)); X->m_closed = false; X->dec = LocalKeys(); X->log_base = X->log.size(); X->stored.clear();
}
void type_bytes(const string& raw) // caller holds NoPreempt
{
    string seen; for (char c : raw) seen += (c == '\r' && X->tty) ? '\n' : c;
    X->typed += seen; note("typed " + esc(raw));
    if (X->alive) for (char c : seen) model_byte(c);
    stdin_type(raw);
}
bool needs_raw(Key k) { return k.k == K::back || k.k == K::eof || k.k == K::clear; }

template <class MAKE> void scenario(MAKE make)
{
    St st; X = &st; model::hooks() = AppHooks();
    bool c6 = focus_is("C06"), c7 = focus_is("C07"), c8 = focus_is("C08"), c22 = focus_is("C22"), c4 = focus_is("C04");
    st.tty = !chance(W, c6 ? 0.0 : 0.2); stdin_reset(st.tty);
    if (st.tty && chance(W, 0.4))
    {
        termios t = tty_attr();
        if (chance(W, 0.3)) t.c_lflag &= ~(tcflag_t)ECHO;
        if (chance(W, 0.3)) t.c_lflag &= ~(tcflag_t)ISIG;
        if (chance(W, 0.3)) t.c_iflag |= IUTF8;
        if (chance(W, 0.3)) t.c_iflag &= ~(tcflag_t)IXON;
        if (chance(W, 0.2)) t.c_cc[VTIME] = 3;
        if (chance(W, 0.1)) t.c_lflag &= ~(tcflag_t)ICANON;
        tty_set_attr(t);
    }
    st.app_attr = tty_attr();
    if (chance(W, c8 ? 0.9 : 0.4)) { double p = pick(W, { 0.02, 0.1, 0.3 }); cfg.p[F_EINTR] = p; cfg.p[F_SPURIOUS] = p; }
    if (chance(W, c8 ? 0.2 : 0.05)) { stdin_set_nonblock(true); cfg.p[F_EAGAIN] = pick(W, { 0.0, 0.05, 0.3 }); probe("stdin_nonblocking"); }
    st.tree = std_tree(); if (chance(W, 0.12)) { cli::SetColor(); probe("colours"); }
    bool long_lines = chance(W, 0.04); st.hist = pick(W, { (size_t)100, (size_t)100, (size_t)1, (size_t)2, (size_t)3, (size_t)6 });
    std::function<void(NodeP)> everywhere = [&](NodeP n) {
        for (auto k : n->kids) if (k->menu) everywhere(k);
        for (string nm : { "tset", "=kill" }) { NodeP k = add(n, leaf(nm, [nm](const Words& a, Effect& f) { if (!a.empty()) return false; f.log = nm; return true; })); k->desc = "none"; }
    };
    everywhere(st.tree);

    int sessions = (int)range(W, 1, c7 ? 3 : 2); bool custom_exc = chance(W, 0.4), custom_wrong = chance(W, 0.3), own_exit = chance(W, 0.6), glob_exit = chance(W, 0.8), glob_enter = chance(W, 0.6);
    st.escape = custom_exc && chance(W, (c7 || c22) ? 0.5 : 0.2);
    bool onestep = chance(W, 0.3), pipefail = chance(W, c7 ? 0.2 : 0.03); uint32_t failhow = choose(W, 3);
    // how the life of each session ends
    enum End { EXITCMD, POSTED, STOPPED, NONSTOP, KILLCMD, STDINEOF, EARLY };
    vector<int> ends;
    for (int i = 0; i < sessions; ++i)
        ends.push_back(c8 ? pick(W, { (int)STDINEOF, (int)STDINEOF, (int)NONSTOP, (int)POSTED, (int)EXITCMD }) : c7 ? (int)choose(W, 7) : pick(W, { (int)EXITCMD, (int)STOPPED, (int)POSTED, (int)NONSTOP, (int)STDINEOF, (int)KILLCMD }));
    for (int i = 0; i < sessions; ++i) if (ends[(size_t)i] == STDINEOF) { sessions = i + 1; ends.resize((size_t)sessions); }
    Sched sc; std::unique_ptr<cli::CliLocalTerminalSession> ses; Capture out; std::function<void()> create, destroy;
    // ---- the program under test
    spawn_app("program", [&] {
        { NoPreempt np; st.app = self_id(); }
        auto root = std::make_unique<cli::Menu>("cli");
        model::hooks().log = [](std::ostream&, const string& l) { NoPreempt np; on_log(l); check_restored("while a command runs", "C06"); };
        model::hooks().special = [&](std::ostream&, const string& n, unsigned long) {
            if (n == "tset" && st.tty)
            {
                NoPreempt np; termios t; if (tcgetattr(0, &t) != 0) return;
                uint32_t w = choose(W, 4); if (w == 0) t.c_lflag ^= ISIG; else if (w == 1) t.c_iflag ^= IXON; else if (w == 2) t.c_cc[VTIME] ^= 3; else t.c_lflag ^= ECHO;
                st.app_attr = t; tcsetattr(0, TCSANOW, &t);
            }
            if (n == "=kill") sc.s->Post([&] { destroy(); });
        };
        install(*root, st.tree);
        cli::Cli cl(std::move(root), std::make_unique<RecStorage>());
        if (glob_enter) cl.EnterAction([](std::ostream& o) { bool t; { NoPreempt np; X->enters++; t = X->throw_enter; } o << "Welcome\n"; if (t) { count_fault(F_HANDLER_THROW); throw 5; } });
        cl.ExitAction([&](std::ostream& o) { on_log("exit"); if (glob_exit) o << "Goodbye\n"; bool s; { NoPreempt np; s = st.stop_on_exit; } if (s) sc.stop(); });
        if (custom_exc) cl.StdExceptionHandler([&](std::ostream& o, const string& c, const std::exception& e) { on_log(string("exception:") + e.what()); o << "exc(" << c << "," << e.what() << ")\n"; if (st.escape && string(e.what()) == "it failed") throw std::runtime_error("escaped"); });
        if (custom_wrong) cl.WrongCommandHandler([&](std::ostream& o, const string& c) { on_log("wrong:" + c); o << "wrong(" << c << ")\n"; });
        int base_threads = 0; vector<int> base_fds;
        create = [&] {
            bool failing;
            {
                NoPreempt np; if (st.session >= sessions || st.alive) return; failing = pipefail && st.session == 0;
                base_fds = open_fds(); base_threads = live_lib_threads() - live_operators();
                if (failing) { note("create a session that fails"); if (failhow == 0) cfg.p[F_PIPE_FAIL] = 1; else if (failhow == 1) cfg.p[F_THREAD_FAIL] = 1; else st.throw_enter = true; }
            }
            if (failing)
            {
                bool thrown = false;
                try { cli::CliLocalTerminalSession bad(cl, *sc.s, out); } catch (const std::exception&) { thrown = true; } catch (int) { thrown = true; }
                NoPreempt np; cfg.p[F_PIPE_FAIL] = cfg.p[F_THREAD_FAIL] = 0;
                if (!thrown && !(failhow == 2 && !glob_enter)) violation("C07", "create-failure", "the session did not report that its pipe or its thread could not be created");
                st.throw_enter = false; note("the creation failed");
                if (open_fds() != base_fds || bad_closes()) violation("C07,C28", "fd-leak", "descriptors leak when the session cannot be created");
                check_restored("after the session could not be created", "C06,C07"); out.b.s.clear();
                if (live_lib_threads() - live_operators() != base_threads) violation("C07,C28", "thread-left", "a helper thread is left when the session cannot be created");
                if (!stdin_open()) violation("C07", "stdin-closed", "stdin was closed by the session");
                probe(failhow == 0 ? "no_pipe" : failhow == 1 ? "no_thread" : "enter_action_throws");
            }
            {
                NoPreempt np; if (st.session >= sessions || st.alive) return; st.session++; st.enters = 0; out.b.s.clear(); model_start(); auto& m = *st.m; m.custom_exc = custom_exc; m.custom_wrong = custom_wrong; m.escape = st.escape;
                m.exit_out = string(own_exit ? "own bye\n" : "") + (glob_exit ? "Goodbye\n" : ""); m.exit_log = own_exit ? vector<string>{ "own", "exit" } : vector<string>{ "exit" };
                st.stop_on_exit = ends[(size_t)st.session - 1] != NONSTOP;
                if (glob_enter) m.print("Welcome\n");
                m.prompt();
                // what is already waiting on stdin belongs to the new session
                size_t n = std::min(stdin_pending(), st.typed.size()); string p = st.typed.substr(st.typed.size() - n);
                for (char c : p) model_byte(c);
                st.alive = true; st.destroyed = false; base_fds = open_fds(); base_threads = live_lib_threads() - live_operators(); note("create session " + std::to_string(st.session));
            }
            if (st.hist == 100) ses.reset(new cli::CliLocalTerminalSession(cl, *sc.s, out)); else ses.reset(new cli::CliLocalTerminalSession(cl, *sc.s, out, st.hist));
            if (own_exit) ses->ExitAction([&](std::ostream& o) { on_log("own"); o << "own bye\n"; });
            NoPreempt np; if (glob_enter && st.enters != 1) violation("C13", "enter-action", "the global enter action ran " + std::to_string(st.enters) + " times");
            check_raw("after creation");
        };
        destroy = [&] {
            uint64_t t0, s0;
            { NoPreempt np; if (!ses) return; note("destroy session"); s0 = steps(); t0 = now_ns(); }
            ses.reset();
            NoPreempt np; st.alive = false; note("session destroyed");
            if (live_lib_threads() - live_operators() != base_threads) violation("C07", "thread-left", "the helper thread still runs after the session was destroyed");
            if (open_fds() != base_fds) violation("C07", "fd-leak", std::to_string(open_fds().size()) + " descriptors are open after the session was destroyed, " + std::to_string(base_fds.size()) + " before it was created");
            if (bad_closes()) violation("C07", "double-close", "a descriptor was closed twice");
            if (!stdin_open()) violation("C07", "stdin-closed", "stdin was closed by the session");
            check_restored("after the session was destroyed", "C06,C07");
            if (st.stored.size() > st.m->stored.size() || !std::equal(st.stored.begin(), st.stored.end(), st.m->stored.begin())) violation("C13,C16,C08,C05", "store", "the commands given to the history storage at exit differ from the commands entered");
            if (now_ns() - t0 > 500000000ull || steps() - s0 > 20000) violation("C07", "slow-destruction", "destroying the session took unbounded time");
            st.destroyed = true;
        };
        auto retire = [] { { NoPreempt np; X->usable = false; } block_until("operators", [] { return live_operators() == 0; }); };
        auto run = [&] {
            for (;;)
            {
                { NoPreempt np; st.in_run = true; }
                try { if (onestep) while (!sc.stopped()) sc.step(); else sc.run(); NoPreempt np; st.in_run = false; break; }
                catch (const std::runtime_error& e)
                {
                    { NoPreempt np; st.in_run = false; if (string(e.what()) != "escaped") violation("C22,C05", "exception-escapes", string("the scheduler threw ") + e.what()); probe("exception_left_scheduler"); note("exception left the scheduler"); }
                    if (ses) ses->Prompt();
                }
            }
        };
        for (;;)
        {
            { NoPreempt np; if (st.session >= sessions) break; }
            make([&](Sched s) {
                sc = s; { NoPreempt np; st.usable = true; st.gen++; } create(); int e; { NoPreempt np; e = ends[(size_t)st.session - 1]; }
                if (e == EARLY) { if (choose(W, 2)) sleep_us(choose(W, 300)); destroy(); retire(); return; }
                { NoPreempt np; st.sched_up = true; }
                run();
                { NoPreempt np; st.sched_up = false; }
                destroy();
                retire();
            });
        }
        NoPreempt np; st.app_done = true; note("program ends");
    });
    // ---- the typist
    mark_env();
    Typist ty; ty.root = st.tree.get(); ty.specials = { "tset", "nap 300", "nap 2000" }; if (c6) { ty.specials.push_back("tset"); ty.specials.push_back("fail"); }
    const string nl = st.tty ? "\r" : "\n";
    auto type = [&](const vector<Key>& ks) {
        bool frag = choose(W, 3) == 1; bool slow = choose(W, 2) != 0;
        for (auto k : ks)
        {
            string b = key_bytes(k.k, k.c, false, (int)choose(W, 2)); if (b == "\r") b = nl;
            if (needs_raw(k))
            {
                if (st.tty && tty_canonical() && !block_until("raw terminal", [&] { return !tty_canonical() || !st.alive; }, 3000000)) violation("C06", "not-raw", "the session does not wait for input any more");
                NoPreempt np; if (st.tty && tty_canonical()) continue;
                type_bytes(b);
            }
            else if (frag && b.size() > 1) for (char c : b) { { NoPreempt np; type_bytes(string(1, c)); } sleep_us(choose(W, 60)); }
            else { NoPreempt np; type_bytes(b); }
            if (slow && choose(W, 3) == 1) sleep_us(choose(W, 80));
        }
    };
    auto line = [&](const string& l) { NoPreempt np; type_bytes(l + nl); };
    auto fresh_line = [&] { type({ { K::end } }); line(""); };
    auto settle = [&](const char* when) {
        wait_idle();
        if (!st.alive || st.m_closed || !st.m) return;
        if (stdin_pending()) violation("C05,C07,C08", "input-not-read", "the session is idle although " + std::to_string(stdin_pending()) + " typed bytes are not read");
        size_t done = st.log.size() - st.log_base;
        if (done != st.m->log.size()) violation(TAG, "command-lost", string(when) + ": " + std::to_string(done) + " handler calls, the typed keys ask for " + std::to_string(st.m->log.size()) + ", next \"" + st.m->log[done] + "\"");
        check_raw(when);
        if (st.stored != st.m->stored) violation("C13,C16,C08,C05", "store", "the commands given to the history storage at exit differ from the commands entered");
        if (st.m->messy) return;
        Screen s; s.feed(out.b.s); string want = st.m->text();
        if (s.text() != want) violation("C05,C22", "screen", string(when) + ": " + diff(s.text(), want));
        if (s.r != st.m->rows.size() || s.c != st.m->column()) violation("C05", "cursor", string(when) + ": the cursor is at row " + std::to_string(s.r) + " column " + std::to_string(s.c) + " instead of " + std::to_string(st.m->rows.size()) + "," + std::to_string(st.m->column()));
        probe("screen_compared");
    };
    // an operator that comes too late, when the program is about to destroy this scheduler, does nothing
    auto operate = [&](std::function<void()> f, uint64_t after_us = 0) {
        int gen = st.gen;
        operators.push_back(spawn_app("operator", [f = std::move(f), after_us, gen] {
            if (after_us) sleep_us(after_us);
            { NoPreempt np; if (!X->usable || X->gen != gen) return; if (after_us) note("operator ends the session"); }
            f();
        }));
    };
    operators.clear();
    for (int i = 0; i < sessions; ++i)
    {
        if (choose(W, 4) == 1 && st.session == i && !st.alive) { line("echo early"); probe("typed_before_session"); }
        if (i > 0 && st.sched_up && st.session == i && !st.alive) // the next session: on the same scheduler or on a new one
        {
            if (choose(W, 2)) { probe("recreated_on_same_scheduler"); if (ends[(size_t)i] == EARLY) ends[(size_t)i] = POSTED; operate([&] { sc.s->Post([&] { create(); }); }); }
            else operate([&] { sc.stop(); });
        }
        if (!block_until("session", [&] { return st.session >= i + 1; }, 5000000)) violation("C07,C02", "program-hangs", "the program does not get to its next session");
        int e = ends[(size_t)i];
        auto wait_destroyed = [&] { if (!block_until("destruction", [&] { return st.destroyed || st.session > i + 1; }, 5000000)) violation("C07,C13,C08", "not-ended", "the session was not destroyed in bounded time"); };
        if (e == EARLY) { if (choose(W, 2)) line("echo x"); wait_destroyed(); continue; }
        // destruction at an arbitrary moment while keys are typed
        uint64_t bomb = 0; if ((e == POSTED || e == STOPPED) && choose(W, 2)) bomb = 1 + choose(W, 3000);
        if (bomb) operate([&, e] { if (e == POSTED) sc.s->Post([&] { destroy(); }); else sc.stop(); }, bomb);
        int bursts = (int)range(W, 1, c4 ? 3 : 9);
        for (int b = 0; b < bursts && st.alive && !st.m_closed; ++b)
        {
            if (long_lines && choose(W, 3) == 1) { vector<Key> ks; for (char c : string("say ")) ks.push_back({ K::ch, c }); uint32_t n = range(W, 100, 1500); for (uint32_t k = 0; k < n; ++k) { ks.push_back({ K::ch, "ab  cde f"[choose(W, 9)] }); if (choose(W, 40) == 1) ks.push_back({ pick(W, { K::left, K::home, K::end, K::back, K::del, K::right }) }); } type(ks); probe("long_line"); }
            type(ty.burst(choose(W, 10) != 9));
            if (choose(W, 2)) { if (!bomb) settle("after typing"); else sleep_us(choose(W, 300)); }
            else sleep_us(choose(W, 400));
            if (!bomb && choose(W, 120) == 1) { sleep_us(1000000ull * pick(W, { 2u, 31u, 305u, 3700u, 90000u })); probe("long_pause"); }
        }
        if (!bomb && choose(W, 2)) settle("before the end");
        // ---- the end of this session
        if (bomb) wait_destroyed();
        else if (e == EXITCMD) { fresh_line(); if (choose(W, 3) == 1) type({ { K::eof } }); else line("exit"); if (choose(W, 2)) line("echo late"); wait_destroyed(); }
        else if (e == STDINEOF || e == NONSTOP)
        {
            bool eof = e == STDINEOF || (i == sessions - 1 && choose(W, 2)); uint64_t r0 = stdin_reads() + stdin_pending();
            if (eof)
            {
                if (choose(W, 3) == 1) { NoPreempt np; type_bytes("\033"); if (choose(W, 2)) type_bytes("["); }
                if (st.tty) block_until("raw terminal", [&] { return !tty_canonical() || !st.alive; }, 3000000);
                NoPreempt np;
                if (st.tty && st.alive && tty_canonical() && (st.app_attr.c_lflag & ICANON)) violation("C06", "not-raw", "the session does not wait for input any more");
                if (st.alive && !st.m_closed) { st.dec.st = 0; st.m->key({ K::eof }); if (st.stop_on_exit) st.m_closed = true; }
                if (choose(W, 3) == 1) stdin_error(); else stdin_eof();
                note("end of input");
            }
            else { fresh_line(); line("exit"); }
            if (st.stop_on_exit) wait_destroyed();
            else
            {
                wait_idle();
                if (st.log.size() - st.log_base != st.m->log.size()) violation("C08,C13,C05", "exit-missing", "the end of the session was not processed: " + std::to_string(st.log.size() - st.log_base) + " of " + std::to_string(st.m->log.size()) + " handler calls");
                if (eof && stdin_reads() > r0 + 20) violation("C08", "eof-spin", "end of input is read over and over");
                if (st.stored != st.m->stored) violation("C13,C16,C08,C05", "store", "the commands given to the history storage at exit differ from the commands entered");
                if (choose(W, 2)) operate([&] { sc.s->Post([&] { destroy(); }); }); else operate([&] { sc.stop(); });
                wait_destroyed();
            }
        }
        else if (e == KILLCMD) { fresh_line(); line("=kill"); if (choose(W, 2)) line("echo late"); if (choose(W, 2)) { NoPreempt np; type_bytes("\033["); } wait_destroyed(); }
        else
        {
            if (choose(W, 2)) { NoPreempt np; type_bytes(choose(W, 2) ? "\033" : "ech"); }
            if (choose(W, 2)) type(ty.burst(true));
            if (e == POSTED) operate([&] { sc.s->Post([&] { destroy(); }); }); else operate([&] { sc.stop(); });
            wait_destroyed();
        }
        // keys typed later do not reach the destroyed session
        if (st.sched_up && st.destroyed && st.session == i + 1 && choose(W, 2))
        {
            size_t n = st.log.size(); uint64_t rd = stdin_reads();
            if (choose(W, 2)) line("echo dead");
            wait_idle();
            if (stdin_reads() != rd || st.log.size() != n) violation("C07", "reads-after-destruction", "stdin is still read after the session was destroyed");
            probe("typed_after_destruction");
        }
    }
    wait_idle();
    if (!st.app_done) { operate([&] { sc.stop(); }); wait_idle(); }
    if (!st.app_done) violation("C07,C02", "program-hangs", "the program does not end after Stop");
    check_restored("at the end of the program", "C06,C07");
    stat_add("bytes_typed", st.typed.size()); stat_add("handler_calls", st.log.size()); stat_add("sessions", (uint64_t)st.session);
}
#ifndef FLAV_SA
void loop_world() { scenario([](std::function<void(Sched)> f) { cli::LoopScheduler s; f(Sched{ &s, [&] { s.Run(); }, [&] { s.Stop(); }, [&] { s.ExecOne(); }, [&] { return s.Stopped(); } }); }); }
Reg r1("local-loop", loop_world);
#endif
void asio_world() { scenario([](std::function<void(Sched)> f) { AsioScheduler s; f(Sched{ &s, [&] { s.Run(); }, [&] { s.Stop(); }, [&] { s.ExecOne(); }, [&] { return s.Stopped(); } }); }); }
Reg r2("local-" FLAV, asio_world);
} // namespace
