// World "history": sessions with recall and browsing over a volatile or file history storage, restarts, kills and disk faults (C16-C19).
#include "model.h"
#include <cli/volatilehistorystorage.h>
#include <cli/filehistorystorage.h>
#include <cli/clilocalsession.h>
#include <iostream>
#include <fstream>
using namespace sim; using namespace model;

namespace {
const char* const FILE_ = "/simdisk/history";
using List = vector<string>;
struct HSess { std::unique_ptr<Sess> m; std::unique_ptr<Capture> out; std::unique_ptr<cli::CliSession> s; vector<string> log; bool dead = false; int id = 0; string shown; };
struct St {
    List disk; bool exists = false; size_t max = 1000; bool file = true;         // what the storage must hold
    bool saving = false, clearing = false; List oldl, newl; size_t faults0 = 0;  // a save is in progress
    bool loading = false; List loaded; bool quiet = false;
    vector<std::unique_ptr<HSess>> sess; HSess* cur = nullptr; bool ended = false, killed = false; int saves = 0, loads = 0, life = 0; bool load_failed = false; vector<List> given; bool faulty = false;
};
St* X;
string show(const List& l) { string s = "["; for (size_t i = 0; i < l.size(); ++i) { if (i > 12) { s += ",... " + std::to_string(l.size()); break; } s += (i ? "," : "") + esc(l[i].substr(0, 40)); } return s + "]"; }
List parse(const string& c) { List l; size_t i = 0; while (i < c.size()) { size_t k = c.find('\n', i); if (k == string::npos) { l.push_back(c.substr(i)); break; } l.push_back(c.substr(i, k - i)); i = k + 1; } return l; }
bool list_prefix(const List& a, const List& b) // a is the beginning of b, its last entry possibly cut
{
    if (a.size() > b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) { if (a[i] == b[i]) continue; if (i + 1 == a.size() && b[i].compare(0, a[i].size(), a[i]) == 0) continue; return false; }
    return true;
}
List trimmed(List a, const List& b, size_t max) { a.insert(a.end(), b.begin(), b.end()); if (a.size() > max) a.erase(a.begin(), a.end() - (long)max); return a; }
// the file after a save that met `faults` faults or was killed
void judge_file(bool faulty, const char* when)
{
    NoPreempt np; St& x = *X; List now = parse(disk_get(FILE_));
    bool isold = now == x.oldl, isnew = now == x.newl;
    if (x.clearing) isnew = now.empty();
    if (!faulty)
    {
        if (isnew) { x.disk = now; return; }
        violation("C16,C17,C18", "not-saved", string(when) + ": nothing failed, but the file holds " + show(now) + " instead of " + show(x.newl) + " (before: " + show(x.oldl) + ")");
    }
    if (isold || isnew) { x.disk = now; probe(isold ? "failed_save_kept_old" : "faulty_save_succeeded"); return; }
    if (!list_prefix(now, x.oldl) && !list_prefix(now, x.newl)) violation("C17,C18", "mixture", string(when) + ": the file holds " + show(now) + ", neither what was there " + show(x.oldl) + " nor what was saved " + show(x.newl));
    // entries persisted before that the new list keeps must be there
    size_t keep = x.clearing ? 0 : std::min(x.oldl.size(), x.newl.size()); // conservative: what the old and the new list share
    List shared; for (size_t k = keep; k > 0; --k) { List t(x.oldl.end() - (long)k, x.oldl.end()); if (std::equal(t.begin(), t.end(), x.newl.begin())) { shared = t; break; } }
    bool all = shared.size() <= now.size() && std::equal(shared.begin(), shared.end(), now.begin());
    if (!all) { violation("C18", "history-lost", string(when) + ": commands persisted before are lost: the file holds " + show(now) + ", before the save it held " + show(x.oldl)); probe("lossy_save"); }
    x.disk = now;
}
struct Spy : cli::HistoryStorage {
    std::unique_ptr<cli::HistoryStorage> in; explicit Spy(std::unique_ptr<cli::HistoryStorage> i) : in(std::move(i)) {}
    void Store(const List& c) override
    {
        { NoPreempt np; St& x = *X; x.given.push_back(c); x.saving = true; x.clearing = false; x.oldl = x.disk; x.newl = trimmed(x.disk, c, x.max); x.faults0 = disk_fault_log().size(); x.saves++; note("store " + show(c)); }
        in->Store(c);
        { NoPreempt np; X->saving = false; if (X->file) judge_file(disk_fault_log().size() != X->faults0, "after a save"); else X->disk = X->newl; }
        if (!X->file) { List now = in->Commands(); NoPreempt np; if (now != X->disk) violation("C16", "not-saved", "the storage holds " + show(now) + " instead of " + show(X->disk)); }
    }
    List Commands() const override
    {
        size_t f0; { NoPreempt np; f0 = disk_fault_log().size(); X->loads++; }
        List l = in->Commands();
        NoPreempt np; bool faulty = disk_fault_log().size() != f0; St& x = *X;
        if (!faulty && l != x.disk) violation("C16,C17,C18", "wrong-load", "the stored history is " + show(x.disk) + " but " + show(l) + " was loaded");
        if (faulty && !list_prefix(l, x.disk)) violation("C17,C16", "wrong-load", "a faulty read of the history " + show(x.disk) + " gave " + show(l));
        x.load_failed = faulty; x.loaded = l; return l;
    }
    void Clear() override
    {
        { NoPreempt np; St& x = *X; x.saving = x.clearing = true; x.oldl = x.disk; x.newl.clear(); x.faults0 = disk_fault_log().size(); note("clear"); }
        in->Clear();
        { NoPreempt np; X->saving = false; if (X->file) judge_file(disk_fault_log().size() != X->faults0, "after clearing"); else X->disk.clear(); X->clearing = false; }
    }
};
string any_line()
{
    uint32_t w = choose(W, 24);
    if (w < 6) return string("echo ") + "abcdef"[choose(W, 6)];
    if (w < 8) return "say x" + std::to_string(choose(W, 3));
    if (w < 13) { static const char* off[] = { "0", "1", "2", "3", "4", "5", "6", "7", "9", "12", "100", "4294967295", "256", "258", "65536", "65537", "4294967296", "4294967299" }; return string("! ") + off[choose(W, 18)]; }
    if (w < 15) return "history";
    if (w == 15) return "nope";
    if (w == 16) return "fail";
    if (w == 17) return "";
    if (w == 18) return "!" + std::to_string(choose(W, 5));
    if (w == 19) return "! x";
    if (w == 20) return "  echo   sp ";
    if (w == 21) return "sub";
    if (w == 22) return "echo \t\xc3\xa9";
    return "echo " + string(choose(W, 3) == 2 ? 9000 : 700, 'L');
}
void world()
{
    St st; X = &st; hooks() = AppHooks(); bool c16 = focus_is("C16"), c17 = focus_is("C17"), c18 = focus_is("C18"), c19 = focus_is("C19");
    std::ostream devnull(nullptr); auto* oc = std::cout.rdbuf(devnull.rdbuf()); struct Restore { std::streambuf* a; ~Restore() { std::cout.rdbuf(a); std::cout.clear(); } } restore{ oc };
    NodeP tree = menu("cli"); for (auto x : { "echo", "say", "fail", "add" }) add(tree, std_leaf(x, x)); auto sub = add(tree, menu("sub")); add(sub, std_leaf("echo", "ping"));
    st.file = chance(W, c17 || c18 ? 1.0 : c16 ? 0.75 : 0.4);
    bool disk_faults = st.file && chance(W, c17 || c18 ? 0.75 : 0.2), kills = st.file && chance(W, c17 || c18 ? 0.6 : 0.2); st.faulty = disk_faults;
    double p = pick(W, { 0.02, 0.1, 0.3 });
    auto arm = [&](bool on) {
        double q = on && disk_faults ? p : 0; uint32_t which = on && disk_faults ? choose(W, 6) : 0;
        cfg.p[F_OPEN_FAIL] = which == 0 || which == 1 ? q : 0; cfg.p[F_READ_EIO] = which == 0 || which == 2 ? q : 0; cfg.p[F_WRITE_ENOSPC] = which == 0 || which == 3 ? q : 0; cfg.p[F_WRITE_EIO] = which == 0 || which == 4 ? q : 0; cfg.p[F_RENAME_FAIL] = which == 0 || which == 5 ? q : 0; cfg.p[F_CLOSE_EIO] = which == 0 || which == 5 ? q : 0;
        if (on && disk_faults && choose(W, 6) == 1) { size_t u = 0; for (auto& f : disk_list()) u += disk_get(f).size(); disk_set_capacity(u + choose(W, 60)); count_fault(F_DISKFULL); probe("disk_full"); } else disk_set_capacity(SIZE_MAX);
    };
    cfg.p[F_SHORT_READ] = cfg.p[F_SHORT_WRITE] = cfg.p[F_EINTR] = chance(W, 0.6) ? 0.1 : 0;
    if (st.file && chance(W, 0.4)) // a history left by an earlier version or another program
    {
        string c; uint32_t n = chance(W, 0.05) ? range(W, 90, 1200) : choose(W, 12); for (uint32_t i = 0; i < n; ++i) { static const char* l[] = { "echo old", "say o", "! 0", "! 1", "!2", "", "history", "nope old", "echo cr\r", "exit", "sub" }; c += l[choose(W, 11)]; if (i + 1 < n || choose(W, 4)) c += '\n'; }
        disk_put(FILE_, c); st.disk = parse(c); probe("foreign_history_file");
    }
    hooks().log = [&](std::ostream& o, const string& l) { NoPreempt np; note(l); for (auto& s : st.sess) if (s->out.get() == &o) { s->log.push_back(l); return; } violation("C19,C11", "unknown-session", "handler \"" + l + "\" got an output stream of no session"); };
    // ---- one life of the program
    auto compare = [&](HSess& h, const string& what) {
        NoPreempt np;
        if (h.log != h.m->log) { size_t k = 0; while (k < h.log.size() && k < h.m->log.size() && h.log[k] == h.m->log[k]) ++k; violation("C19", "wrong-command", "session " + std::to_string(h.id) + ", after " + what + ": handler call " + std::to_string(k + 1) + " is " + (k < h.log.size() ? "\"" + h.log[k] + "\"" : "missing") + " instead of " + (k < h.m->log.size() ? "\"" + h.m->log[k] + "\"" : "nothing")); }
        string got = h.out->b.s, want = h.m->text(); want.pop_back(); auto norm = [](const string& x) { std::istringstream i(x); string r, l; while (std::getline(i, l)) r += Screen::rtrim(l) + "\n"; return r; }; got = norm(got); want = norm(want); if (got != want) violation("C19,C16", "screen", "session " + std::to_string(h.id) + ", after " + what + ": " + diff(esc(got), esc(want)));
    };
    auto life = [&](int inc) {
        uint32_t ops = c19 ? 4 + choose(W, 40) : 2 + choose(W, 20); bool longer = chance(W, 0.03); if (longer) { ops = range(W, 100, 400); probe("long_life"); }
        auto root = std::make_unique<cli::Menu>("cli"); install(*root, tree);
        std::unique_ptr<cli::HistoryStorage> store; if (st.file) store.reset(new cli::FileHistoryStorage(FILE_, st.max)); else store.reset(new cli::VolatileHistoryStorage(st.max));
        auto spy_ = std::make_unique<Spy>(std::move(store)); Spy* spy = spy_.get();
        cli::Cli cl(std::move(root), std::move(spy_)); cl.ExitAction([](std::ostream& o) { hooks().log(o, "exit"); o << "bye\n"; });
        auto open = [&] {
            HSess* h; size_t size = pick(W, { (size_t)100, (size_t)1, (size_t)2, (size_t)3, (size_t)5, (size_t)8 }); { NoPreempt np; st.sess.push_back(std::make_unique<HSess>()); h = st.sess.back().get(); h->id = (int)st.sess.size(); h->out.reset(new Capture); note("session " + std::to_string(h->id) + " (history size " + std::to_string(size) + ")"); }
            int l0 = st.loads; h->s.reset(new cli::CliSession(cl, *h->out, size));
            { NoPreempt np; if (st.loads == l0) st.loaded = st.disk; h->m = std::make_unique<Sess>(tree.get(), size); h->m->exit_out = "bye\n"; h->m->h.load(st.loaded); h->m->prompt(); }
            h->s->Prompt(); return h;
        };
        auto close = [&](HSess& h) { h.s.reset(); NoPreempt np; h.dead = true; };
        auto feed = [&](HSess& h, const string& l) {
            size_t n0; { NoPreempt np; n0 = st.given.size(); note("session " + std::to_string(h.id) + " <- " + esc(l.substr(0, 60))); h.shown.clear(); }
            { NoPreempt np; h.m->feed(l); h.m->prompt(); }
            h.s->Feed(l); h.s->Prompt(); compare(h, "\"" + esc(l.substr(0, 60)) + "\"");
            NoPreempt np;
            List want; if (h.m->stored.size()) want = h.m->stored.back();
            if (h.m->exited) { if (st.given.size() != n0 + 1) violation("C16,C13", "store", "exit gave " + std::to_string(st.given.size() - n0) + " lists to the history storage"); if (st.given.back() != want) violation("C16", "store", "the commands entered in the session are " + show(want) + " but " + show(st.given.back()) + " were stored"); }
            else if (st.given.size() != n0) violation("C16", "store", "commands were stored although no session exited");
        };
        for (uint32_t i = 0; i < ops; ++i)
        {
            arm(true);
            if (st.quiet) arm(false);
            vector<HSess*> live; for (auto& s : st.sess) if (s->s) live.push_back(s.get());
            uint32_t w = choose(W, 40);
            if (live.empty() || (w == 0 && live.size() < 3)) { open(); continue; }
            HSess& h = *live[choose(W, (uint32_t)live.size())];
            if (w < (c19 ? 3u : 8u)) { if (choose(W, 4)) { string e = "exit"; unsigned long id = 0; bool rec = false; { NoPreempt np; for (auto& x : h.m->h.e) if (x.s == "exit") { id = x.id; rec = true; } } if (rec && choose(W, 2)) e = "! " + std::to_string(id); feed(h, e); if (h.m->exited) close(h); } else { note("session dropped"); close(h); } }
            else if (w < 14)
            {
                // up and down, sometimes with edits
                uint32_t n = 1 + choose(W, 5);
                for (uint32_t k = 0; k < n; ++k)
                {
                    bool up = choose(W, 3) != 2; string line; { NoPreempt np; if (choose(W, 4) == 1) h.shown = any_line().substr(0, 40); line = h.shown; }
                    string got = up ? h.s->PreviousCmd(line) : h.s->NextCmd(), want; { NoPreempt np; want = up ? h.m->h.up(line) : h.m->h.down(); h.shown = got; note(string(up ? "up" : "down") + " from \"" + esc(line) + "\": \"" + esc(got.substr(0, 60)) + "\""); }
                    if (got != want) { NoPreempt np; violation("C19", "wrong-entry", string(up ? "up" : "down") + " shows \"" + esc(got.substr(0, 80)) + "\" instead of \"" + esc(want.substr(0, 80)) + "\""); }
                }
                probe("browsing");
                if (choose(W, 3)) { string l; { NoPreempt np; l = h.shown; } feed(h, l); if (h.m->exited) close(h); }
            }
            else if (w == 14 && st.file && choose(W, 6) == 1) spy->Clear();
            else if (w == 15) { auto l = spy->Commands(); (void)l; }
            else if (w == 16 && choose(W, 3) == 1) { List l; uint32_t n = choose(W, 4); for (uint32_t k = 0; k < n; ++k) l.push_back("echo direct" + std::to_string(choose(W, 100))); spy->Store(l); }
            else { string l = any_line(); feed(h, l); if (h.m->exited) close(h); }
        }
        for (auto& s : st.sess) if (s->s) { if (choose(W, 2)) { feed(*s, "exit"); } close(*s); }
        if (inc < 0) return;
        NoPreempt np; st.ended = true;
    };
    { std::ofstream o("/simdisk/warm"); o << "x\n"; o.close(); std::ifstream i("/simdisk/warm"); string l; std::getline(i, l); disk_remove("/simdisk/warm"); }
    cli::Cli::cout(); // its initialisation must not be interrupted by a kill: a restarted program starts afresh
    int lives = (int)range(W, 1, c17 || c18 || c16 ? 5 : 3); size_t fds = open_fds().size();
    mark_env();
    for (int inc = 0; inc < lives; ++inc)
    {
        st.ended = st.saving = false; st.life = inc; st.max = pick(W, { (size_t)1000, (size_t)1, (size_t)2, (size_t)3, (size_t)8, (size_t)20 }); if (!st.file) st.disk.clear();
        { for (auto& s : st.sess) if (s->s) { s->s.release(); s->dead = true; } } // of a killed life
        note("life " + std::to_string(inc) + ", storage size " + std::to_string(st.max) + ", stored " + show(st.disk));
        bool kill_ = kills && choose(W, 3) != 0; uint32_t how = choose(W, 2); st.quiet = inc == lives - 1 && choose(W, 2);
        uint64_t opn = kill_ && how == 0 ? 1 + choose(W, c17 || c18 ? 40 : 20) : 0, t = kill_ && how == 1 ? choose(W, 400) : 0;
        int id = spawn_app("program", [&, inc] { life(inc); });
        if (opn) disk_crash_at_op(opn, [&st] { st.killed = true; });
        if (t) at(t, [&st, inc] { if (st.ended || st.life != inc) return; st.killed = true; note("kill"); count_fault(F_CRASH); kill_app(); });
        if (!block_until("life", [&] { return st.ended || st.killed; }, 60000000)) violation("C16,C17,C19", "stuck", "the program does not end");
        if (st.killed)
        {
            st.killed = false; probe("killed_program"); disk_reset_incarnation();
            if (st.saving) { probe("killed_during_save"); judge_file(true, "after a kill"); if (st.clearing) st.clearing = false; }
            else { List now = parse(disk_get(FILE_)); if (now != st.disk) violation("C17,C18,C16", "changed", "the program was killed while it was not saving, and the history changed from " + show(st.disk) + " to " + show(now)); }
        }
        else { disk_crash_at_op(0, nullptr); block_until("exit", [&] { return thread_done(id); }); if (open_fds().size() != fds) violation("C17,C16", "fd-leak", "a descriptor stays open"); if (st.file && parse(disk_get(FILE_)) != st.disk) violation("C17,C18,C16", "changed", "the history file changed without a save"); }
        fds = open_fds().size();
    }
    // ---- after everything: without faults the storage works
    if (st.file)
    {
        for (auto f : { F_OPEN_FAIL, F_READ_EIO, F_WRITE_ENOSPC, F_WRITE_EIO, F_RENAME_FAIL, F_CLOSE_EIO }) cfg.p[f] = 0;
        disk_set_capacity(SIZE_MAX); st.ended = false; st.life = -1; st.max = 1000;
        int id = spawn_app("program", [&] { Spy s(std::unique_ptr<cli::HistoryStorage>(new cli::FileHistoryStorage(FILE_))); s.Commands(); s.Store({ "last", "words" }); s.Commands(); NoPreempt np; st.ended = true; });
        if (!block_until("last", [&] { return thread_done(id); }, 60000000)) violation("C17", "stuck", "the storage does not work any more");
    }
    stat_add("saves", (uint64_t)st.saves); stat_add("loads", (uint64_t)st.loads); stat_add("sessions", st.sess.size()); stat_add("lives", (uint64_t)lives);
    for (auto& s : st.sess) s->s.release();
}
Reg r1("history", world);
} // namespace
