// World "script": file sessions over streams that split their data anyhow, end or fail anywhere; scripts that run scripts
// (C20; C13 and C22 for file sessions).
#include "flavour.h"
#include "model.h"
#include <cli/clifilesession.h>
#include <cli/volatilehistorystorage.h>
#include <fstream>
#include <iostream>
using namespace sim; using namespace model;

namespace {
enum Source { CHUNKS, STRING, DISK, CIN };
struct Script {
    Source src = CHUNKS; string data; size_t good = 0; /* bytes delivered before the end or the error */ bool error = false, more = false; uint64_t refused = 0;
    bool own_enter = false, own_exit = false; Capture* out = nullptr; string want; bool played = false, ran = false, out_fails = false;
};
struct St {
    vector<std::unique_ptr<Script>> scripts; vector<string> log, want; vector<vector<string>> stored, want_stored; bool uncertain = false; int depth = 0;
};
St* X;
// hands out pieces of any size, then the end or an error; data after the end must not be asked for
struct ChunkBuf : std::streambuf {
    Script& s; size_t pos = 0; char buf[64]; bool ended = false;
    explicit ChunkBuf(Script& x) : s(x) {}
    int_type underflow() override
    {
        NoPreempt np;
        if (ended && ++s.refused > 3) violation("C20", "reads-after-end", "the input is read over and over after its end");
        if (ended && !s.more) return traits_type::eof();
        size_t end = ended ? s.data.size() : s.good;
        if (pos >= end)
        {
            ended = true;
            if (s.error) { count_fault(F_READ_EIO); throw std::runtime_error("device error"); }
            return traits_type::eof();
        }
        size_t n = std::min(end - pos, sizeof buf), k = choose(F, 3) == 0 ? n : 1 + choose(F, (uint32_t)n);
        if (k < n) count_fault(F_SHORT_READ);
        memcpy(buf, s.data.data() + pos, k); pos += k; setg(buf, buf, buf + k); return traits_type::to_int_type(buf[0]);
    }
};
struct FailingCapture : CaptureBuf { // accepts some bytes and then fails: a full disk behind the output
    size_t room; explicit FailingCapture(size_t r) : room(r) {}
    std::streamsize xsputn(const char* p, std::streamsize n) override { NoPreempt np; size_t k = std::min((size_t)n, room - std::min(room, s.size())); if (k < (size_t)n) count_fault(F_STREAM_FAIL); s.append(p, k); return (std::streamsize)k; }
    int overflow(int c) override { NoPreempt np; if (s.size() >= room) { count_fault(F_STREAM_FAIL); return traits_type::eof(); } s += (char)c; return c; }
};
struct RecStorage : cli::HistoryStorage {
    void Store(const vector<string>& c) override { NoPreempt np; X->stored.push_back(c); }
    vector<string> Commands() const override { return {}; }
    void Clear() override {}
};
void on_log(const string& l)
{
    NoPreempt np; St& x = *X; size_t k = x.log.size(); x.log.push_back(l); note(l);
    if (x.uncertain) return; // where the input breaks off is known afterwards
    if (k >= x.want.size() || x.want[k] != l) violation("C20,C13,C22", "wrong-command", "call " + std::to_string(k + 1) + " is \"" + esc(l) + "\" instead of " + (k < x.want.size() ? "\"" + esc(x.want[k]) + "\"" : "the end of the session"));
}
string line(int depth)
{
    uint32_t w = choose(W, 37);
    if (w > 33) { Typist ty; return ty.cmdline(); }
    static const char* l[] = { "echo a", "echo b", "say x y z", "add 1 2", "fail", "faili", "failc", "faild 3", "failb", "sub", "..", "ping q", "deep", "nope", "", "   ", "help", "history", "! 0", "! 1", "  echo  s ", "\techo t", "add 1 x", "sub deep dive k", "fail me", "echo \xff\xfe", "exit now", "add -2147483648 -1", "add 2147483648 0", "add +7 -3", "faild -1", "faild 4294967295" };
    if (w < 27) return l[choose(W, sizeof l / sizeof *l)];
    if (w == 27) return choose(W, 3) ? "echo e" : "exit";
    if (w == 28) return choose(W, 3) ? "say e" : " exit ";
    if (w == 29) return "echo cr\r";
    if (w == 30) return "echo " + string(choose(W, 3) == 2 ? pick(W, { 9000u, 9000u, 70000u }) : pick(W, { 300u, 300u, 1030u, 2100u }), 'L');
    if (w == 31) return string("say a\0b", 7);
    if (depth < 2 && w > 31) return "run " + std::to_string(depth * 3 + (int)choose(W, 3) + 1);
    return "say hi";
}
void world()
{
    St st; X = &st; hooks() = AppHooks(); bool c20 = focus_is("C20");
    NodeP tree = std_tree(); std::function<void(NodeP)> everywhere = [&](NodeP n) { for (auto k : n->kids) if (k->menu) everywhere(k); add(n, std_leaf("shout", "run")); }; everywhere(tree);
    bool custom_exc = chance(W, 0.4), custom_wrong = chance(W, 0.3), glob_enter = chance(W, 0.7), glob_exit = chance(W, 0.8);
    // scripts: 0 is the main one; 1..3 are run by it, 4..6 by those
    for (int i = 0; i < 7; ++i)
    {
        st.scripts.push_back(std::make_unique<Script>()); Script& s = *st.scripts.back(); int depth = i == 0 ? 0 : i < 4 ? 1 : 2;
        uint32_t n = choose(W, i ? 6 : c20 ? 30 : 20); if (!i && chance(W, 0.03)) { n = range(W, 100, 900); probe("long_script"); } for (uint32_t k = 0; k < n; ++k) s.data += line(depth) + "\n";
        if (choose(W, 3) == 1) s.data += choose(W, 2) ? line(depth) : string(pick(W, { "echo cut", "exit", "fail", "say cut off", " ", "run 2", "! 0", "echo a;", "exit;", "echo a\\" }));
        if (i == 0) s.src = pick(W, { CHUNKS, CHUNKS, STRING, DISK, DISK, CIN });
        s.good = s.data.size();
        if (s.src == CHUNKS || s.src == CIN) { if (choose(W, 3) == 1) { s.good = choose(W, (uint32_t)s.data.size() + 1); probe("end_inside"); } s.error = choose(W, 2); s.more = choose(W, 2); if (s.more && choose(W, 2)) s.data += "\necho late\n"; if (!s.more) s.data.resize(s.good); }
        s.own_enter = choose(W, 2); s.own_exit = choose(W, 2);
        s.out_fails = i == 0 && s.src != CIN && chance(W, 0.1);
    }
    bool disk_faults = st.scripts[0]->src == DISK && chance(W, 0.6); double p = pick(W, { 0.02, 0.1, 0.3 });
    if (disk_faults) { cfg.p[F_READ_EIO] = p; cfg.p[F_SHORT_READ] = 0.3; cfg.p[F_OPEN_FAIL] = p / 2; }
    cfg.p[F_EINTR] = chance(W, 0.5) ? 0.1 : 0;
    // ---- the model plays the scripts
    std::function<void(int, const string&)> play = [&](int i, const string& bytes) {
        Script& s = *st.scripts[(size_t)i]; Sess m(tree.get(), 1); m.custom_exc = custom_exc; m.custom_wrong = custom_wrong; size_t seen = 0;
        auto flush = [&] { for (; seen < m.log.size(); ++seen) st.want.push_back(m.log[seen]); };
        m.exit_out = string(s.own_exit ? "own bye\n" : "") + (glob_exit ? "bye\n" : ""); m.exit_log.clear(); if (s.own_exit) m.exit_log.push_back("own exit"); if (glob_exit) m.exit_log.push_back("exit");
        m.on_run = [&](const Dispatch& d) { if (d.ran->name == "run") { flush(); unsigned long n = std::stoul(d.fx.log.substr(4)); if (n > (unsigned long)i && n < 7) play((int)n, st.scripts[n]->data.substr(0, st.scripts[n]->good)); } };
        if (glob_enter) { st.want.push_back("enter"); m.print("Welcome\n"); }
        if (s.own_enter) { st.want.push_back("own enter"); m.print("own hi\n"); }
        size_t b = 0; m.prompt();
        while (!m.exited)
        {
            size_t e = bytes.find('\n', b); if (e == string::npos) { m.exit_now(); break; }
            m.feed(bytes.substr(b, e - b)); b = e + 1; flush(); m.prompt();
        }
        flush(); for (auto& l : m.stored) st.want_stored.push_back(l);
        for (auto& r : m.rows) s.want += r + "\n";
        s.want += m.rowhead;
        s.played = true;
    };
    { Script& s = *st.scripts[0]; play(0, s.data.substr(0, s.good)); }
    hooks().log = [](std::ostream&, const string& l) { on_log(l); };
    vector<std::unique_ptr<Capture>> outs; for (auto& s : st.scripts) { outs.push_back(std::make_unique<Capture>()); s->out = outs.back().get(); }
    FailingCapture limited(choose(W, 200)); if (st.scripts[0]->out_fails) st.scripts[0]->out->rdbuf(&limited);
    if (st.scripts[0]->src == DISK) disk_put("/simdisk/script", st.scripts[0]->data);
    st.uncertain = disk_faults;
    bool done = false, opened = true, bad_ctor = chance(W, 0.1); size_t fds = open_fds().size();
    spawn_app("program", [&] {
        auto root = std::make_unique<cli::Menu>("cli"); install(*root, tree);
        cli::Cli cl(std::move(root), std::make_unique<RecStorage>());
        if (glob_enter) cl.EnterAction([](std::ostream& o) { on_log("enter"); o << "Welcome\n"; });
        if (glob_exit) cl.ExitAction([](std::ostream& o) { on_log("exit"); o << "bye\n"; });
        if (custom_exc) cl.StdExceptionHandler([&](std::ostream& o, const string& c, const std::exception& e) { on_log(string("exception:") + e.what()); o << "exc(" << c << "," << e.what() << ")\n"; });
        if (custom_wrong) cl.WrongCommandHandler([&](std::ostream& o, const string& c) { on_log("wrong:" + c); o << "wrong(" << c << ")\n"; });
        auto start = [&](cli::CliFileSession& fs, Script& s) {
            if (s.own_enter) fs.EnterAction([](std::ostream& o) { on_log("own enter"); o << "own hi\n"; });
            if (s.own_exit) fs.ExitAction([](std::ostream& o) { on_log("own exit"); o << "own bye\n"; });
            { NoPreempt np; s.ran = true; }
            fs.Start();
            NoPreempt np; note("a session ended");
        };
        hooks().special = [&](std::ostream&, const string&, unsigned long n) {
            Script* s; { NoPreempt np; if (n <= (unsigned long)st.depth || n >= 7) return; s = st.scripts[n].get(); }
            int saved = st.depth; { NoPreempt np; st.depth = (int)n; probe("nested_script"); }
            { ChunkBuf b(*s); std::istream in(&b); cli::CliFileSession fs(cl, in, *s->out); start(fs, *s); }
            NoPreempt np; st.depth = saved;
        };
        if (bad_ctor)
        {
            bool thrown = false; std::istringstream in("echo x\n"); Capture o; if (choose(W, 2)) in.setstate(std::ios::failbit); else o.setstate(std::ios::badbit);
            try { cli::CliFileSession fs(cl, in, o); } catch (const std::invalid_argument&) { thrown = true; }
            NoPreempt np; if (!thrown) violation("C20", "bad-stream", "a session on an invalid stream was accepted"); if (!o.b.s.empty() || !st.log.empty()) violation("C20,C13", "bad-stream", "a session on an invalid stream did something");
        }
        Script& s = *st.scripts[0];
        if (s.src == CHUNKS) { ChunkBuf b(s); std::istream in(&b); cli::CliFileSession fs(cl, in, *s.out); start(fs, s); }
        else if (s.src == STRING) { std::istringstream in(s.data); cli::CliFileSession fs(cl, in, *s.out); start(fs, s); }
        else if (s.src == DISK)
        {
            std::ifstream in("/simdisk/script"); { NoPreempt np; opened = in.is_open(); if (opened != disk_fault_log().empty()) harness_error("open"); }
            bool thrown = false;
            try { cli::CliFileSession fs(cl, in, *s.out); start(fs, s); } catch (const std::invalid_argument&) { thrown = true; }
            NoPreempt np; if (thrown == opened) violation("C20", "bad-stream", "the session on a file that could not be opened was accepted, or the other way round");
        }
        else
        {
            ChunkBuf b(s); std::cin.rdbuf(&b); std::cin.clear(); std::cout.rdbuf(&s.out->b); std::cout.clear();
            { cli::CliFileSession fs(cl); start(fs, s); }
        }
        NoPreempt np; done = true;
    });
    auto* ci = std::cin.rdbuf(); auto* co = std::cout.rdbuf(); struct Restore { std::streambuf *a, *b; ~Restore() { std::cin.rdbuf(a); std::cin.clear(); std::cout.rdbuf(b); std::cout.clear(); } } restore{ ci, co };
    mark_env();
    if (!block_until("program", [&] { return done; }, 60000000)) violation("C20", "not-ended", "the session does not end");
    Script& s0 = *st.scripts[0]; bool read_fault = false; for (auto& f : disk_fault_log()) if (f.op == "read") read_fault = true;
    if (!opened) { if (!st.log.empty()) violation("C20", "bad-stream", "commands ran although the file could not be opened"); probe("open_failed"); return; }
    if (s0.src == DISK && read_fault)
    {
        // what was read before the error counts
        st.want.clear(); st.want_stored.clear(); for (auto& s : st.scripts) { s->want.clear(); s->played = false; }
        probe("read_error"); play(0, s0.data.substr(0, disk_stats().bytes_read));
    }
    if (st.log != st.want) violation("C20,C22,C13", "command-lost", "the session ended after " + std::to_string(st.log.size()) + " of " + std::to_string(st.want.size()) + " calls; next would be \"" + (st.log.size() < st.want.size() ? esc(st.want[st.log.size()]) : "") + "\"");
    if (st.stored != st.want_stored) violation("C13,C16,C20", "store", "the commands given to the history storage differ from those entered: " + std::to_string(st.stored.size()) + " lists, " + std::to_string(st.want_stored.size()) + " sessions ended");
    for (size_t i = 0; i < st.scripts.size(); ++i)
    {
        Script& s = *st.scripts[i];
        if (s.ran != s.played) violation("C20", "script", "script " + std::to_string(i) + (s.ran ? " ran" : " did not run"));
        string got = s.out_fails ? limited.s : s.out->b.s, want = s.want;
        if (s.out_fails) { if (limited.s.size() < limited.room) { if (got != want) violation("C20,C13,C22", "output", diff(esc(got), esc(want))); } else probe("output_failed"); continue; }
        if (got != want) violation("C20,C13,C22", "output", "script " + std::to_string(i) + ": " + diff(got, want));
    }
    if (open_fds().size() != fds) violation("C20", "fd-leak", "a descriptor stays open");
    stat_add("bytes", s0.good); stat_add("handler_calls", st.log.size());
}
Reg r1("script", world);
} // namespace
