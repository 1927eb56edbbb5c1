// World "soak": the same work over and over in one program: sessions of every kind, servers, menu changes, tasks and commands come
// and go, and what the program holds afterwards (memory, descriptors, threads) must not grow (C28).
#include "flavour.h"
#include "model.h"
#include <cli/clilocalsession.h>
#include <cli/clifilesession.h>
#include <cli/volatilehistorystorage.h>
#include <cli/filehistorystorage.h>
#include <iostream>
using namespace sim; using namespace model;

namespace {
constexpr unsigned short PORT = 5000;
constexpr int WARM = 6, CYCLES = 16; // caches and capacities settle in the first ones
struct Null : std::ostream { struct B : std::streambuf { std::streamsize xsputn(const char*, std::streamsize n) override { return n; } int overflow(int c) override { return c; } } b; Null() : std::ostream(nullptr) { rdbuf(&b); } };
struct St { bool up = false, ended = false, in_run = false; int app = -1, commands = 0, exits = 0, enters = 0, done = 0; bool throw_enter = false; };
St* X;
struct Sched { cli::Scheduler* s = nullptr; std::function<void()> run, stop; };

string text(uint32_t n, bool telnet, bool big)
{
    string r, e = telnet ? string("\r\0", 2) : string("\n");
    for (uint32_t i = 0; i < n; ++i)
        switch (choose(W, 20))
        {
            case 0: r += "echo aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" + e; break;
            case 1: r += "say x y zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz" + e; break;
            case 2: r += "fail" + e; break;
            case 3: r += "faili" + e; break;
            case 4: r += "sub" + e + "ping a" + e + ".." + e; break;
            case 5: r += "sub deep dive q" + e; break;
            case 6: r += "history" + e; break;
            case 7: r += "! 0" + e; break;
            case 8: r += "nope nope nope nope nope nope" + e; break;
            case 9: r += "help" + e; break;
            case 10: r += "shout 40" + e; break;
            case 11: r += (big ? "dump 1200" : "dump 100") + e; break;
            case 12: r += "ec\t \x7f\x7f\t" + e; break;
            case 13: r += "\033[A\033[A\033[B" + e; break;
            case 14: r += "\033[A\033[Dq\033[3~\033[H\033[F" + e; break;
            case 15: r += telnet ? "\xff\xfa\x1f" + string(300, 'n') + "\xff\xf0" : string("\t\t") + e; break;
            case 16: r += telnet ? string("\xff\xfb\x05\xff\xfd\x03\xff\xf1", 8) : string("\f"); break;
            case 17: r += "say " + string(big ? 1100 : 200, 'w') + e; break;
            case 18: r += "failc" + e + "faild 3" + e + "failb" + e; break;
            default: r += e; break;
        }
    return r;
}
template <class S> Sched make_asio(std::unique_ptr<S>& s) { s.reset(new S); Sched r; S* p = s.get(); r.s = p; r.run = [p] { p->Run(); }; r.stop = [p] { p->Stop(); }; return r; }

void world()
{
    St st; X = &st; hooks() = AppHooks(); cfg.max_steps = 4000000;
    Null devnull; auto* oc = std::cout.rdbuf(devnull.rdbuf()); auto* oe = std::cerr.rdbuf(devnull.rdbuf());
    struct Restore { std::streambuf *a, *b; ~Restore() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } } restore{ oc, oe };
    if (chance(W, 0.5)) { double p = pick(W, { 0.01, 0.05 }); cfg.p[F_EINTR] = cfg.p[F_SPURIOUS] = cfg.p[F_SHORT_READ] = cfg.p[F_SHORT_WRITE] = cfg.p[F_EAGAIN] = p; }
    net_set_window(pick(W, { (size_t)65536, (size_t)2000, (size_t)300 }));
    stdin_reset(chance(W, 0.7));
    NodeP tree = std_tree(); for (string k : { "shout", "dump" }) add(tree, std_leaf(k, k));
    bool loop = chance(W, 0.25), files = chance(W, 0.3), gexit = chance(W, 0.6), genter = chance(W, 0.5), senter = chance(W, 0.5), sexit = chance(W, 0.5), ext = !loop && chance(W, 0.2);
    size_t hist = pick(W, { (size_t)3, (size_t)1, (size_t)8 });
    // ---- what happens in every cycle
    enum Kind { TELNET, PTELNET, LOCAL, PLOCAL, ASYNC, FILES, BARE, PBARE, SERVER, MENU, TASKS, MANY, NKIND };
    bool aborts = genter && chance(W, 0.3); bool on[NKIND] = {}; uint32_t want = 1 + choose(W, 3);
    for (uint32_t i = 0; i < want; ++i)
    {
        uint32_t k = pick(W, { (uint32_t)TELNET, (uint32_t)TELNET, (uint32_t)TELNET, (uint32_t)LOCAL, (uint32_t)LOCAL, (uint32_t)PTELNET, (uint32_t)PLOCAL, (uint32_t)ASYNC, (uint32_t)FILES, (uint32_t)BARE, (uint32_t)PBARE, (uint32_t)SERVER, (uint32_t)SERVER, (uint32_t)MENU, (uint32_t)TASKS, (uint32_t)MANY });
        if (loop && (k == TELNET || k == PTELNET || k == ASYNC || k == SERVER)) k = LOCAL;
        if ((k == LOCAL || k == PLOCAL || k == ASYNC) && (on[LOCAL] || on[PLOCAL] || on[ASYNC])) continue; // they share stdin
        on[k] = true;
    }
    enum End { EXIT, EOFKEY, FIN, RST, CLOSE, FLASH, NEND }; uint32_t end = choose(W, NEND), clients = 1 + choose(W, 3), cut = choose(W, 3); bool slow = chance(W, 0.3);
    string ttext = text(1 + choose(W, 6), true, true), ptext = text(2 + choose(W, 6), true, true), ltext = text(1 + choose(W, 5), false, false), pltext = text(2 + choose(W, 5), false, false);
    vector<string> blines; { uint32_t n = 1 + choose(W, 8); static const char* l[] = { "echo aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "fail", "faili", "history", "! 0", "! 99", "sub", "..", "nope", "shout 3", "help", "sub ping a", "say bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb c", "" }; for (uint32_t i = 0; i < n; ++i) blines.push_back(l[choose(W, 14)]); }
    uint32_t lend = choose(W, 4), fend = choose(W, 3), bend = choose(W, 2), aend = choose(W, 2), send_ = choose(W, 3), mend = choose(W, 3), ntasks = 1 + choose(W, 8), tthrow = choose(W, 3), mkind = choose(W, 4), tickers = chance(W, 0.25) ? 1 + choose(W, 3) : 0;
    // ---- the program
    Sched sc; cli::Cli* clip = nullptr; cli::Menu* rootp = nullptr; Null nowhere;
    std::unique_ptr<AsioTelnetServer> srv, srv2; std::unique_ptr<cli::CliLocalTerminalSession> local; std::unique_ptr<AsioAsyncSession> async; std::unique_ptr<cli::CliSession> bare; AsioScheduler* as = nullptr;
    size_t base_fds = open_fds().size();
    spawn_app("program", [&] {
        { NoPreempt np; st.app = self_id(); }
        hooks().log = [](std::ostream&, const string& l) { NoPreempt np; X->commands++; note(l); };
        hooks().special = [](std::ostream&, const string&, unsigned long n) { cli::Cli::cout() << string(std::min(n, 100ul), 'S') << "\n"; };
        auto root = std::make_unique<cli::Menu>("cli"); install(*root, tree); rootp = root.get();
        std::unique_ptr<cli::HistoryStorage> store; if (files) store.reset(new cli::FileHistoryStorage("/simdisk/history", 3)); else store.reset(new cli::VolatileHistoryStorage(3));
        cli::Cli cl(std::move(root), std::move(store)); clip = &cl;
        if (genter) cl.EnterAction([](std::ostream& o) { bool t; { NoPreempt np; X->enters++; t = X->throw_enter; X->throw_enter = false; } o << "Hello\n"; if (t) throw 3; });
        if (gexit) cl.ExitAction([](std::ostream& o) { { NoPreempt np; X->exits++; } o << "Goodbye\n"; });
        std::unique_ptr<asiox::io_context> ctx; if (ext) ctx.reset(new asiox::io_context);
        {
            std::unique_ptr<asiox::executor_work_guard<asiox::io_context::executor_type>> guard; if (ext) guard.reset(new asiox::executor_work_guard<asiox::io_context::executor_type>(ctx->get_executor()));
            std::unique_ptr<AsioScheduler> s; std::unique_ptr<cli::LoopScheduler> l;
            if (loop) { l.reset(new cli::LoopScheduler); auto* p = l.get(); sc.s = p; sc.run = [p] { p->Run(); }; sc.stop = [p] { p->Stop(); }; }
            else { s.reset(ext ? new AsioScheduler(*ctx) : new AsioScheduler); as = s.get(); auto* p = as; sc.s = p; sc.run = [p] { p->Run(); }; sc.stop = [p] { p->Stop(); }; }
            if (on[TELNET] || on[PTELNET]) { srv.reset(new AsioTelnetServer(cl, *as, PORT, hist)); if (senter) srv->EnterAction([](std::ostream& o) { o << "Hi\n"; }); if (sexit) srv->ExitAction([](std::ostream& o) { o << "server bye\n"; }); }
            if (on[PLOCAL]) local.reset(new cli::CliLocalTerminalSession(cl, *sc.s, nowhere, hist));
            if (on[PBARE]) bare.reset(new cli::CliSession(cl, nowhere, hist));
            sc.s->Post([&] { NoPreempt np; st.up = true; });
            for (;;) { try { { NoPreempt np; st.in_run = true; } sc.run(); break; } catch (int) { NoPreempt np; st.in_run = false; } }
            { NoPreempt np; st.in_run = false; }
            local.reset(); async.reset(); bare.reset(); srv2.reset(); srv.reset();
        }
        clip = nullptr; NoPreempt np; st.ended = true;
    });
    mark_env();
    if (!block_until("start", [&] { return st.up; }, 5000000)) violation("C28", "no-start", "the program does not start");
    track_allocations();
    auto post = [&](std::function<void()> f) { int id = spawn_app("operator", [&, f] { sc.s->Post(f); }); block_until("post", [&] { return thread_done(id); }); };
    auto task = [&](std::function<void()> f) { { NoPreempt np; st.done = 0; } post([&, f] { f(); NoPreempt np; st.done = 1; }); if (!block_until("task", [&] { return st.done != 0; }, 20000000)) violation("C28", "stuck", "a task does not run"); };
    vector<std::unique_ptr<Client>> cls; string sink;
    auto reader = [&](Client* c, bool slow_) { spawn_env("reader", [c, slow_, &st] { for (;;) { block_until("data", [c, &st] { return c->available() || c->peer_closed() || c->gone() || st.ended; }); if (!c->available()) break; c->take(slow_ ? 200 : 100000); if (slow_) sleep_us(20); } }); };
    auto connect = [&](unsigned short port, bool slow_) { cls.push_back(std::make_unique<Client>()); Client* c = cls.back().get(); if (!c->connect(port)) violation("C28", "not-listening", "the server does not listen"); reader(c, slow_); return c; };
    auto finish = [&](Client* c, uint32_t e) {
        switch (e) { case EXIT: c->send(string("\033[F\r\0exit\r\0", 11)); break; case EOFKEY: c->send(string("\033[F\r\0\x04", 6)); break; case FIN: c->fin(); break; case RST: case FLASH: c->rst(); break; default: c->close(); }
    };
    auto type = [&](const string& s) { for (size_t i = 0; i < s.size(); ) { size_t n = std::min(s.size() - i, (size_t)(cut == 0 ? 100000 : cut == 1 ? 1 : 7)); stdin_type(s.substr(i, n)); i += n; if (cut) sleep_us(5); } };
    auto send = [&](Client* c, const string& s) { for (size_t i = 0; i < s.size(); ) { size_t n = std::min(s.size() - i, (size_t)(cut == 0 ? 100000 : cut == 1 ? 11 : 200)); c->send(s.substr(i, n)); i += n; if (cut) sleep_us(5); } };
    Client* persistent = nullptr; if (on[PTELNET]) { persistent = connect(PORT, false); wait_idle(); }
    size_t fds = 0, live = 0, bytes = 0; int thr = 0; uint64_t mark = 0;
    for (int cycle = 0; cycle < WARM + CYCLES; ++cycle)
    {
        if (on[TELNET])
        {
            if (aborts) { { NoPreempt np; st.throw_enter = true; } Client* c = connect(PORT, slow); wait_idle(); if (!c->peer_closed()) violation("C28,C12", "not-closed", "the connection stays open after its enter action threw"); c->close(); wait_idle(); }
            vector<Client*> cs; for (uint32_t i = 0; i < clients; ++i) cs.push_back(connect(PORT, slow));
            if (end != FLASH) { for (auto c : cs) send(c, ttext); if (cut != 1) wait_idle(); }
            for (auto c : cs) finish(c, end);
            wait_idle();
            for (auto c : cs) if (!c->gone() && !c->peer_closed()) violation("C28,C12,C13", "not-closed", "the connection stays open after the end of its session");
        }
        if (on[PTELNET]) { send(persistent, ptext); wait_idle(); if (persistent->peer_closed()) violation("C28,C12", "closed", "the session was closed although it did not exit"); }
        if (on[SERVER])
        {
            task([&] { srv2.reset(new AsioTelnetServer(*clip, *as, (unsigned short)(PORT + 1), hist)); });
            Client* c = send_ == 0 ? nullptr : connect(PORT + 1, false); if (c) { send(c, ttext); if (cut) wait_idle(); }
            task([&] { srv2.reset(); }); wait_idle();
            if (c && !c->peer_closed()) { finish(c, send_ == 1 ? EXIT : RST); wait_idle(); }
        }
        if (on[LOCAL])
        {
            if (aborts) task([&] { { NoPreempt np; st.throw_enter = true; } try { cli::CliLocalTerminalSession s(*clip, *sc.s, nowhere, hist); } catch (int) { NoPreempt np; probe("aborted"); } });
            task([&] { local.reset(new cli::CliLocalTerminalSession(*clip, *sc.s, nowhere, hist)); });
            type(ltext); if (lend) wait_idle();
            if (lend == 2) { type("\nexit\n"); wait_idle(); }
            if (lend == 3) type("echo pend\033[");
            task([&] { local.reset(); });
            if (!lend || lend == 3) { wait_idle(); stdin_reset(true); }
        }
        if (on[PLOCAL]) { type(pltext); wait_idle(); }
        if (on[ASYNC])
        {
            if (aborts) task([&] { { NoPreempt np; st.throw_enter = true; } try { AsioAsyncSession s(*as, *clip); } catch (int) { NoPreempt np; probe("aborted"); } });
            task([&] { async.reset(new AsioAsyncSession(*as, *clip)); });
            string t; for (auto& l : blines) t += l + "\n"; if (aend) t += "exit\n"; type(t); wait_idle();
            task([&] { async.reset(); });
        }
        if (on[FILES]) task([&] {
            std::istringstream in; { string t; for (auto& l : blines) t += l + "\n"; if (fend == 0) t += "exit\n"; if (fend == 1) t += "cut"; in.str(t); }
            cli::CliFileSession f(*clip, in, nowhere); f.Start();
        });
        if (on[BARE]) task([&] { cli::CliSession s(*clip, nowhere, hist); for (auto& l : blines) { s.Feed(l); s.Prompt(); s.GetCompletions(l); s.PreviousCmd(l); } if (bend) s.Feed("exit"); });
        if (on[PBARE]) task([&] { for (auto& l : blines) { bare->Feed(l); bare->Prompt(); bare->GetCompletions(l); } });
        if (on[MENU]) task([&] {
            auto m = std::make_unique<cli::Menu>("extra"); auto h1 = m->Insert("cmd", [](std::ostream& o, int) { o << "x"; }, "help", { "par" }); m->Insert("list", [](std::ostream& o, const vector<string>&) { o << "x"; });
            auto h = rootp->Insert(std::move(m)); auto h2 = rootp->Insert("top", [](std::ostream& o) { o << "t"; });
            cli::CliSession s(*clip, nowhere, hist); s.Feed("extra"); s.Feed("cmd 3"); s.Feed("list a b"); s.Feed("help");
            cli::CmdHandler hs; int turn = 0; std::function<void()> put = [&] { hs = rootp->Insert("swap", [&](std::ostream& o) { o << "swap\n"; hs.Remove(); if (++turn < 3) put(); }); }; // a command that replaces itself
            put(); for (int i = 0; i < 3; ++i) s.Feed(mend == 1 ? ".." : "swap"), s.Feed("swap"); hs.Remove();
            if (mend == 0) { h1.Remove(); h.Remove(); h2.Remove(); }
            else if (mend == 1) { h.Disable(); h.Enable(); h.Remove(); h.Remove(); h2.Remove(); s.Feed("cmd 3"); }
            else { h2.Remove(); h.Remove(); s.Feed("top"); s.Prompt(); }
        });
        if (on[MANY]) task([&] { // a little of one thing, many times: finds what grows by a few bytes each time
            for (int i = 0; i < 80; ++i) switch (mkind)
            {
                case 0: { cli::CliSession s(*clip, nowhere, hist); break; }
                case 1: { Null mine; cli::CliSession s(*clip, mine, hist); s.Feed("echo a"); if (i & 1) s.Feed("exit"); break; }
                case 2: { auto h = rootp->Insert("tmp", [](std::ostream& o) { o << "t"; }); if (i & 1) h.Disable(); h.Remove(); break; }
                default: { std::istringstream in("say x\nsub\n"); cli::CliFileSession f(*clip, in, nowhere); f.Start(); cli::Cli::cout() << "to all\n"; break; }
            }
        });
        if (on[TASKS])
        {
            for (uint32_t i = 0; i < ntasks; ++i) { std::shared_ptr<string> load; if (i == 0) load = std::make_shared<string>(500, 'l'); bool t = tthrow == i && !ext; post([load, t] { if (t) throw 3; }); }
            wait_idle();
        }
        wait_idle();
        size_t f = open_fds().size(); int t = live_lib_threads();
        if (cycle == WARM - 1) { fds = f; thr = t; live = live_allocations(); bytes = live_bytes(); mark = allocation_mark(); }
        if (cycle >= WARM)
        {
            if (f > fds) violation("C28", "descriptors", "after " + std::to_string(cycle - WARM + 1) + " more rounds of the same work the program holds " + std::to_string(f) + " descriptors instead of " + std::to_string(fds));
            if (t > thr) violation("C28", "threads", "after " + std::to_string(cycle - WARM + 1) + " more rounds of the same work the program has " + std::to_string(t) + " threads instead of " + std::to_string(thr));
        }
    }
    string kinds; static const char* nm[] = { "telnet", "persistent telnet", "local", "persistent local", "async", "file", "bare", "persistent bare", "server", "menu", "tasks", "many" }; for (int i = 0; i < NKIND; ++i) if (on[i]) kinds += string(kinds.empty() ? "" : ", ") + nm[i];
    size_t l2 = live_allocations(), b2 = live_bytes();
    note("blocks " + std::to_string(live) + " -> " + std::to_string(l2) + ", bytes " + std::to_string(bytes) + " -> " + std::to_string(b2));
    if (l2 >= live + (size_t)CYCLES - 2) violation("C28", "memory", "after " + std::to_string(CYCLES) + " more rounds of the same work (" + kinds + ") the program holds " + std::to_string(l2) + " memory blocks instead of " + std::to_string(live) + ": " + allocation_report(mark));
    if (b2 >= bytes + 3000) violation("C28", "memory", "after " + std::to_string(CYCLES) + " more rounds of the same work (" + kinds + ") the program holds " + std::to_string(b2) + " bytes of memory instead of " + std::to_string(bytes) + ": " + allocation_report(mark));
    if (tickers) // tasks that post themselves again and again: the queue is never empty, and still holds nothing but them
    {
        size_t bl0 = 0, bl1 = 0, by0 = 0, by1 = 0, n = 0; uint64_t m0 = 0; constexpr size_t FROM = 60, TO = 560; std::function<void()> tick;
        tick = [&] { bool more; { NoPreempt np; n++; if (n == FROM) { bl0 = live_allocations(); by0 = live_bytes(); m0 = allocation_mark(); } if (n == TO) { bl1 = live_allocations(); by1 = live_bytes(); } more = n < TO; } if (more) sc.s->Post(tick); };
        post([&] { for (uint32_t i = 0; i < tickers; ++i) sc.s->Post(tick); });
        if (!block_until("ticks", [&] { return n >= TO; }, 20000000)) violation("C28,C01,C02", "stuck", "tasks that post themselves again stop running");
        wait_idle(); probe("tickers");
        if (bl1 >= bl0 + 100 || by1 >= by0 + 3000) violation("C28", "memory", "after " + std::to_string(TO - FROM) + " more tasks, never more than " + std::to_string(tickers) + " waiting, the program holds " + std::to_string(bl1) + " memory blocks (" + std::to_string(by1) + " bytes) instead of " + std::to_string(bl0) + " (" + std::to_string(by0) + "): " + allocation_report(m0));
    }
    stat_add("handler_calls", (uint64_t)st.commands); stat_add("clients", cls.size()); stat_add("rounds", WARM + CYCLES);
    for (int i = 0; i < NKIND; ++i) if (on[i]) probe(nm[i]);
    // ---- the end
    int id = spawn_app("stopper", [&] { sc.s->Post([&] { sc.stop(); }); }); (void)id;
    if (!block_until("end", [&] { return st.ended; }, 10000000)) violation("C28,C02", "no-end", "the program does not end after Stop");
    wait_idle();
    if (open_fds().size() > base_fds) violation("C28", "descriptors", "descriptors are open after the program ended");
    if (live_lib_threads()) violation("C28", "threads", "a thread is left after the program ended");
}
Reg r1("soak-" FLAV, world);
} // namespace
