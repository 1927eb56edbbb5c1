// World "menus": commands and menus enabled, disabled, removed and inserted between, during and in the middle of typing command
// lines, by tasks and by handlers of bare, telnet and local sessions positioned anywhere (C24).
#include "flavour.h"
#include "model.h"
#include <cli/clilocalsession.h>
#include <iostream>
using namespace sim; using namespace model;

namespace {
constexpr unsigned short PORT = 5000;
struct Op { enum Kind { ENABLE, DISABLE, REMOVE, INSERT } kind; NodeP target, what; bool throws = false; std::deque<NodeP> created; };
struct User {
    int id = 0; string kind; std::unique_ptr<Sess> m; vector<string> log; std::ostream* o = nullptr; Capture out; std::unique_ptr<cli::CliSession> bare; Client cl; string rx; bool open = false, half = false; size_t compared = 0;
};
struct St { NodeP tree; vector<NodeP> all; vector<Op> ops; vector<std::unique_ptr<User>> users; std::map<Node*, cli::Menu*> real; int app = -1; bool up = false, ended = false; string who; std::ostream* entering = nullptr; int changes = 0, ids = 0; vector<string> stored; };
St* X;
string tag(const Node* n) { return n->name + "#" + std::to_string(n->tag); }
void on_log(std::ostream& o, const string& l)
{
    NoPreempt np; note("ran " + l); if (self_id() != X->app) violation("C24,C01", "wrong-thread", "handler \"" + l + "\" ran on a thread that is not running the scheduler");
    for (auto& u : X->users) if (u->open && u->o == &o)
    {
        size_t k = u->log.size(); u->log.push_back(l);
        if (k >= u->m->log.size() || u->m->log[k] != l) violation("C24", "wrong-command", "user " + std::to_string(u->id) + " (" + u->kind + "): \"" + l + "\" ran, but according to the menu as it is " + (k < u->m->log.size() ? "\"" + u->m->log[k] + "\"" : "nothing") + " should");
        return;
    }
    violation("C24,C11", "unknown-session", "handler \"" + l + "\" got an output stream of no session");
}
// ---- nodes: model and real side
NodeP make_leaf(const string& name, const string& kind)
{
    NodeP n = leaf(name, nullptr); n->desc = kind; n->tag = ++X->ids; Node* p = n.get();
    n->leaf = [p, kind](const Words& a, Effect& f) {
        unsigned long x; long i, j; f.log = tag(p);
        if (kind == "echo") { if (a.size() != 1) return false; f.log += ":" + a[0]; }
        else if (kind == "add") { if (a.size() != 2 || !integer(a[0], i) || !integer(a[1], j)) return false; f.log += ":" + std::to_string(i) + "," + std::to_string(j); }
        else if (kind == "say") { for (auto& w : a) f.log += "," + w; }
        else if (kind == "shout") { if (a.size() != 1 || !number(a[0], x)) return false; f.log += ":" + std::to_string(x); if (x < X->ops.size() && X->ops[x].throws) { f.thrown = 1; f.what = "changed and failed"; } }
        else { if (!a.empty()) return false; if (kind == "fail") { f.thrown = 1; f.what = "it failed"; } }
        f.out = "<" + std::to_string(p->tag) + ">\n"; return true;
    };
    return n;
}
void apply_real(unsigned long i);
cli::CmdHandler install_one(cli::Menu& m, NodeP n);
void install_all(cli::Menu& m, NodeP n) { { NoPreempt np; X->real[n.get()] = &m; } for (auto k : n->kids) k->handle = install_one(m, k); }
cli::CmdHandler install_one(cli::Menu& m, NodeP n)
{
    const string name = n->name, k = n->desc, t = tag(n.get()), out = "<" + std::to_string(n->tag) + ">\n";
    // the handler owns memory: a handler used after its command was removed and destroyed is seen by the sanitizer
    auto own = std::make_shared<string>(t + string(40, '.')); auto me = [own, t](std::ostream& o, const string& args) { if (own->compare(0, t.size(), t) != 0) violation("C24", "dead-command", "a destroyed command ran"); on_log(o, t + args); };
    if (n->menu) { auto sm = std::make_unique<cli::Menu>(name, "(menu)", n->prompt == name ? "" : n->prompt); install_all(*sm, n); return m.Insert(std::move(sm)); }
    if (k == "echo") return m.Insert(name, [=](std::ostream& o, const string& w) { me(o, ":" + w); o << out; }, "echo a word");
    if (k == "add") return m.Insert(name, [=](std::ostream& o, int a, int b) { me(o, ":" + std::to_string(a) + "," + std::to_string(b)); o << out; }, "add");
    if (k == "say") return m.Insert(name, [=](std::ostream& o, const vector<string>& v) { string s; for (auto& x : v) s += "," + x; me(o, s); o << out; }, "say");
    if (k == "shout") return m.Insert(name, [=](std::ostream& o, unsigned x) { me(o, ":" + std::to_string(x)); o << out; apply_real(x); if (*own != t + string(40, '.')) violation("C24", "dead-command", "the running command was destroyed"); if (x < X->ops.size() && X->ops[x].throws) { count_fault(F_HANDLER_THROW); throw std::runtime_error("changed and failed"); } }, "special");
    if (k == "fail") return m.Insert(name, [=](std::ostream& o) { me(o, ""); o << out; count_fault(F_HANDLER_THROW); throw std::runtime_error("it failed"); }, "fail");
    return m.Insert(name, [=](std::ostream& o) { me(o, ""); o << out; }, "special");
}
void die(Node* n) { n->alive = false; for (auto& k : n->kids) die(k.get()); }
NodeP clone(const NodeP& n)
{
    if (!n->menu) return make_leaf(n->name, n->desc);
    NodeP m = menu(n->name, n->prompt); m->tag = ++X->ids; for (auto& k : n->kids) add(m, clone(k)); return m;
}
void remember(NodeP n) { X->all.push_back(n); for (auto& k : n->kids) remember(k); }
void apply_model(unsigned long i)
{
    if (i >= X->ops.size()) return;
    Op& o = X->ops[i]; Node* t = o.target.get(); X->changes++;
    static const char* names[] = { "enable", "disable", "remove", "insert into" }; note(string(names[o.kind]) + " " + tag(t) + (t->alive ? "" : " (removed)") + (o.kind == Op::INSERT ? ": " + o.what->name : ""));
    if (!t->alive) { probe("change_of_a_removed_entry"); return; }
    for (auto& u : X->users) if (u->open) for (Node* c = u->m->at(); c; c = c->parent) if (c == t && o.kind == Op::REMOVE) probe(c == u->m->cur ? "removed_current_menu" : "removed_ancestor_menu");
    switch (o.kind)
    {
        case Op::ENABLE: t->enabled = true; break;
        case Op::DISABLE: t->enabled = false; break;
        case Op::REMOVE: { die(t); auto& k = t->parent->kids; k.erase(std::find(k.begin(), k.end(), o.target)); break; }
        case Op::INSERT: { NodeP n = clone(o.what); add(o.target, n); remember(n); o.created.push_back(n); break; }
    }
}
void apply_real(unsigned long i)
{
    Op* o; NodeP n; cli::Menu* m = nullptr;
    { NoPreempt np; if (i >= X->ops.size()) return; o = &X->ops[i]; if (o->kind == Op::INSERT) { if (o->created.empty()) return; n = o->created.front(); o->created.pop_front(); m = X->real[o->target.get()]; } }
    switch (o->kind)
    {
        case Op::ENABLE: o->target->handle.Enable(); break;
        case Op::DISABLE: o->target->handle.Disable(); break;
        case Op::REMOVE: o->target->handle.Remove(); break;
        case Op::INSERT: n->handle = install_one(*m, n); break;
    }
}
string some_name() { static const char* n[] = { "a", "ab", "abc", "b", "go", "run", "help", "exit", "m", "mm", "sub", "history", "cli" }; return n[choose(W, 13)]; }
string some_kind() { static const char* k[] = { "echo", "add", "say", "none", "fail", "none" }; return k[choose(W, 6)]; }
NodeP random_node(int depth)
{
    uint32_t w = choose(W, 10);
    if (w < 4 && depth < 3) { NodeP m = menu(pick(W, { "m", "mm", "sub", "a" }), choose(W, 3) ? "" : "p" + std::to_string(choose(W, 9))); m->tag = ++X->ids; uint32_t n = choose(W, 4); for (uint32_t i = 0; i < n; ++i) add(m, random_node(depth + 1)); if (choose(W, 3)) add(m, make_leaf("chg", "shout")); return m; }
    if (w == 4) return make_leaf("chg", "shout");
    return make_leaf(some_name(), some_kind());
}
void world()
{
    St st; X = &st; hooks() = AppHooks(); stdin_reset(true);
    std::ostream devnull(nullptr); auto* oc = std::cout.rdbuf(devnull.rdbuf()); struct Restore { std::streambuf* a; ~Restore() { std::cout.rdbuf(a); std::cout.clear(); } } restore{ oc };
    if (chance(W, 0.4)) { double p = pick(W, { 0.02, 0.1 }); cfg.p[F_EINTR] = cfg.p[F_SPURIOUS] = cfg.p[F_SHORT_READ] = cfg.p[F_SHORT_WRITE] = cfg.p[F_EAGAIN] = p; }
    st.tree = menu("cli"); uint32_t n0 = chance(W, 0.06) ? range(W, 12, 40) : 2 + choose(W, 5); for (uint32_t i = 0; i < n0; ++i) add(st.tree, random_node(0)); add(st.tree, make_leaf("chg", "shout")); remember(st.tree);
    bool with_local = chance(W, 0.4), custom_exc = chance(W, 0.4), custom_wrong = chance(W, 0.3); int bares = (int)range(W, 1, 3), remotes = (int)choose(W, 3);
    AsioScheduler* sched = nullptr; cli::Cli* clip = nullptr; std::unique_ptr<cli::CliLocalTerminalSession> local; std::unique_ptr<AsioTelnetServer> server;
    auto new_model = [&](User& u) { u.m.reset(new Sess(st.tree.get(), 100)); u.m->h.load(st.stored); u.m->custom_exc = custom_exc; u.m->custom_wrong = custom_wrong; u.m->exit_out = "bye\n"; u.m->on_run = [](const Dispatch& d) { if (d.ran->desc == "shout") apply_model(std::stoul(d.fx.log.substr(d.fx.log.find(':') + 1))); }; u.log.clear(); u.m->prompt(); };
    auto user = [&](const char* kind) -> User& { st.users.push_back(std::make_unique<User>()); User& u = *st.users.back(); u.id = (int)st.users.size(); u.kind = kind; return u; };
    int stop_done = 0; User* entering = nullptr;
    spawn_app("program", [&] {
        { NoPreempt np; st.app = self_id(); }
        auto root = std::make_unique<cli::Menu>("cli"); install_all(*root, st.tree);
        cli::Cli cl(std::move(root)); clip = &cl;
        cl.EnterAction([&](std::ostream& o) { NoPreempt np; if (entering) entering->o = &o; });
        cl.ExitAction([](std::ostream& o) { on_log(o, "exit"); o << "bye\n"; });
        if (custom_exc) cl.StdExceptionHandler([](std::ostream& o, const string& c, const std::exception& e) { on_log(o, string("exception:") + e.what()); o << "exc(" << c << "," << e.what() << ")\n"; });
        if (custom_wrong) cl.WrongCommandHandler([](std::ostream& o, const string& c) { on_log(o, "wrong:" + c); o << "wrong(" << c << ")\n"; });
        {
            AsioScheduler s; sched = &s; if (remotes) server.reset(new AsioTelnetServer(cl, s, PORT, 100));
            s.Post([&] { NoPreempt np; st.up = true; });
            try { s.Run(); } catch (const std::exception& e) { NoPreempt np; violation("C24,C22", "exception-escapes", string("the scheduler threw ") + e.what()); }
            block_until("stop", [&] { return stop_done > 0; });
            for (auto& u : st.users) u->bare.reset();
            local.reset(); server.reset();
        }
        NoPreempt np; st.ended = true;
    });
    mark_env();
    block_until("up", [&] { return st.up; }, 5000000);
    auto task = [&](std::function<void()> f) {
        auto done = std::make_shared<bool>(false); spawn_app("operator", [&, f, done] { sched->Post([f, done] { f(); NoPreempt np; *done = true; }); });
        wait_idle(); if (!*done) violation("C24,C01", "not-run", "a posted task did not run");
    };
    auto rx = [&](User& u) { u.rx += u.cl.take(); };
    auto check = [&](User& u, const char* when) {
        if (!u.open) return;
        string who = "user " + std::to_string(u.id) + " (" + u.kind + "), " + when;
        if (u.log != u.m->log) violation("C24", "command-lost", who + ": " + std::to_string(u.log.size()) + " handler calls instead of " + std::to_string(u.m->log.size()) + (u.log.size() < u.m->log.size() ? ", next \"" + u.m->log[u.log.size()] + "\"" : ""));
        if (u.m->messy) return;
        string got, want = u.m->text(); Screen s;
        if (u.kind == "remote") { rx(u); s.crlf = false; string d; int t = 0; for (unsigned char c : u.rx) { if (t == 0) { if (c == 255) t = 1; else d += (char)c; } else if (t == 1) t = c == 250 ? 3 : c >= 251 && c <= 254 ? 2 : 0; else if (t == 2) t = 0; else if (t == 3) { if (c == 255) t = 4; } else t = c == 240 ? 0 : 3; } s.feed(d); }
        else s.feed(u.out.b.s);
        got = s.text(); if (got != want) violation("C24", "screen", who + ": " + diff(got, want)); probe("screen_compared");
    };
    auto open_bare = [&](User& u) { new_model(u); u.out.b.s.clear(); u.o = &u.out; u.open = true; note("user " + std::to_string(u.id) + " opens a bare session"); task([&] { u.bare.reset(new cli::CliSession(*clip, u.out, 100)); u.bare->Prompt(); }); };
    for (int i = 0; i < bares; ++i) open_bare(user("bare"));
    for (int i = 0; i < remotes; ++i) { User& u = user("remote"); new_model(u); entering = &u; u.open = true; if (!u.cl.connect(PORT)) violation("C24,C12", "not-listening", "no server"); wait_idle(); entering = nullptr; if (!u.o) violation("C24,C12", "not-served", "no session for a client"); }
    if (with_local) { User& u = user("local"); new_model(u); u.o = &u.out; u.open = true; task([&] { local.reset(new cli::CliLocalTerminalSession(*clip, *sched, u.out)); }); }
    auto some_alive = [&](bool menus) { vector<NodeP> v; for (auto& x : st.all) if (x != st.tree || menus) if ((x->alive || choose(W, 12) == 1) && (!menus || x->menu)) v.push_back(x); return v.empty() ? NodeP() : v[choose(W, (uint32_t)v.size())]; };
    auto new_op = [&](User* u) -> unsigned long {
        Op o; uint32_t w = choose(W, 12); o.kind = w < 3 ? Op::REMOVE : w < 6 ? Op::DISABLE : w < 8 ? Op::ENABLE : Op::INSERT; o.throws = choose(W, 5) == 1;
        if (o.kind == Op::INSERT) { o.target = some_alive(true); o.what = random_node(1); }
        else if (u && choose(W, 3) == 1) { Node* c = u->m->at(); uint32_t up = choose(W, 3); while (up-- && c->parent && c->parent->parent) c = c->parent; for (auto& x : st.all) if (x.get() == c && c->parent) o.target = x; }
        else if (u && choose(W, 4) == 1) for (auto& x : u->m->at()->kids) if (x->name == "chg") o.target = x;
        if (!o.target) o.target = some_alive(false);
        if (!o.target) { o.kind = Op::INSERT; o.target = st.tree; o.what = random_node(1); }
        st.ops.push_back(o); return st.ops.size() - 1;
    };
    auto plain = [&]() -> string {
        uint32_t w = choose(W, 20); static const char* args[] = { "", " x", " 1 2", " x y", " 3" };
        string p; while (choose(W, 3) == 1) p += string(pick(W, { "m", "mm", "sub", "..", "a", "cli" })) + " ";
        if (w < 9) return p + some_name() + args[choose(W, 5)];
        if (w < 13) return p + pick(W, { "m", "mm", "sub", "a" });
        if (w < 15) return p + "..";
        if (w == 15) return "cli";
        if (w == 16) return "help";
        if (w == 17) return "history";
        return p + "run";
    };
    auto safe = [&](const string& l) { Words w = split(l); return !w.empty() && !(w.size() == 1 && w[0] == "exit"); };
    auto keys = [&](User& u, const string& text) { // typed by a remote or local user
        for (char c : text)
        {
            if (u.m->exited) break;
            Key k{ K::ch, c }; if (c == '\n') k = { K::enter };
            u.m->key(k); note("user " + std::to_string(u.id) + " types " + esc(string(1, c)));
            if (u.kind == "remote") u.cl.send(c == '\n' ? "\r\n" : string(1, c)); else { NoPreempt np; stdin_type(string(1, c == '\n' ? '\r' : c)); }
        }
    };
    auto feed = [&](User& u, const string& l) { // by a bare user
        note("user " + std::to_string(u.id) + " <- " + l); u.m->feed(l); u.m->prompt(); task([&u, l] { u.bare->Feed(l); u.bare->Prompt(); });
    };
    auto say_line = [&](User& u, const string& l) { if (u.kind == "bare") feed(u, l); else { keys(u, u.half ? "\n" : l + "\n"); u.half = false; wait_idle(); } };
    uint32_t steps_ = 5 + choose(W, 40);
    for (uint32_t i = 0; i < steps_; ++i)
    {
        vector<User*> live; for (auto& x : st.users) if (x->open) live.push_back(x.get());
        if (live.empty()) break;
        User& u = *live[choose(W, (uint32_t)live.size())]; uint32_t w = choose(W, 20);
        if (w < 4) { unsigned long o = new_op(&u); bool th = st.ops[o].throws; st.ops[o].throws = false; apply_model(o); task([o] { apply_real(o); }); st.ops[o].throws = th; } // between commands
        else if (w < 9) say_line(u, (choose(W, 3) == 1 ? string(pick(W, { "..", "cli", "m", "sub" })) + " " : string()) + "chg " + std::to_string(choose(W, 6) || st.ops.empty() ? new_op(&u) : choose(W, (uint32_t)st.ops.size())));
        else if (w < 11 && u.kind == "bare") // completion
        {
            string l = plain(); l.resize(choose(W, (uint32_t)l.size() + 1)); auto want = completions(u.m->at(), l); vector<string> got; task([&] { got = u.bare->GetCompletions(l); });
            auto join = [](const vector<string>& v) { string s; for (auto& x : v) s += "'" + x + "' "; return s; };
            if (got != want) violation("C24", "completion", "user " + std::to_string(u.id) + ": completing \"" + l + "\" offers " + join(got) + "instead of " + join(want));
            probe("completion_compared");
        }
        else if (w < 11) { string l = plain(); l.resize(choose(W, (uint32_t)l.size() + 1)); keys(u, l + "\t"); u.half = true; wait_idle(); } // stays half typed
        else if (w == 11) say_line(u, "! " + std::to_string(choose(W, 12)));
        else if (w == 12) // several users at once
        {
            probe("several_users_at_once");
            for (auto& x : st.users) if (x->open && choose(W, 3)) { string l = plain(); if (!safe(l)) continue; if (x->kind == "bare") { x->m->feed(l); x->m->prompt(); User* p = x.get(); spawn_app("operator", [&, p, l] { sched->Post([p, l] { p->bare->Feed(l); p->bare->Prompt(); }); }); } else if (!x->half) keys(*x, l + "\n"); }
            wait_idle();
        }
        else if (w == 13 && u.kind == "bare" && choose(W, 2)) { note("user " + std::to_string(u.id) + " starts again"); task([&] { u.bare.reset(); }); open_bare(u); }
        else say_line(u, plain());
        for (auto& x : st.users) { check(*x, "after a step");
            if (x->open && x->m->exited) { note("user " + std::to_string(x->id) + " has left"); probe("left"); x->open = false; for (auto& c : x->m->stored.back()) st.stored.push_back(c); if (x->kind == "bare" && choose(W, 2)) { task([&] { x->bare.reset(); }); open_bare(*x); } } }
    }
    spawn_app("stopper", [&] { sched->Stop(); NoPreempt np; stop_done = 1; });
    if (!block_until("end", [&] { return st.ended; }, 10000000)) violation("C24,C02", "no-end", "the program does not end after Stop");
    for (auto& u : st.users) if (u->log != u->m->log) violation("C24", "wrong-command", "a command ran after the end");
    stat_add("menu_changes", (uint64_t)st.changes); uint64_t n = 0; for (auto& u : st.users) n += u->log.size(); stat_add("handler_calls", n);
}
Reg r1("menus-" FLAV, world);
} // namespace
