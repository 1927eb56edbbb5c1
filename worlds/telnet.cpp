// World "telnet": telnet servers, many clients, bare and local sessions on one command hierarchy, broadcasts, hostile clients,
// network faults, servers and sessions destroyed while the scheduler runs (C09-C15, C22, C23; C04 with the race runtime).
#include "flavour.h"
#include "model.h"
#include <cli/clilocalsession.h>
#include <iostream>
using namespace sim; using namespace model;

namespace {
constexpr unsigned short PORT = 5000;
struct Live { // a session of the program
    std::ostream* o = nullptr; string kind; vector<string> log; vector<vector<string>> stored; int enters = 0, senters = 0; bool exited = false, dead = false, touched = false, aborted = false, alt = false; int part = -1; int gen = 0;
};
struct BrokenBuf : CaptureBuf { // accepts a part and then nothing: a full disk, a closed pipe
    size_t room; explicit BrokenBuf(size_t r) : room(r) {}
    std::streamsize xsputn(const char* p, std::streamsize n) override { NoPreempt np; size_t k = std::min((size_t)n, room - std::min(room, s.size())); if (k < (size_t)n) count_fault(F_STREAM_FAIL); s.append(p, k); return (std::streamsize)k; }
    int overflow(int c) override { NoPreempt np; if (s.size() >= room) { count_fault(F_STREAM_FAIL); return traits_type::eof(); } s += (char)c; return c; }
};
struct BrokenCapture : Capture { BrokenBuf bb; explicit BrokenCapture(size_t r) : bb(r) { rdbuf(&bb); } };
struct Bcast { int id; string text; std::set<int> live; int pair = 0; };
struct Part { // a user: remote client, bare session, local terminal
    int id = 0; string kind, rx, sent; bool modelled = true, negotiated = false, gone = false, fin = false, writer_done = false, reader_done = false, connected = false; std::unique_ptr<Sess> m; TelnetKeys dec; LocalKeys ldec; Client cl; int token = 0;
    size_t asked_at_exit = SIZE_MAX; size_t bcasts_at_fin = SIZE_MAX; int gen = 0; int twin = -1; uint32_t slow = 0; size_t chunk = 4096; bool model_over = false; std::unique_ptr<Capture> out; bool broken = false; std::unique_ptr<cli::CliSession> bare; bool rst_by_fault = false;
    string pending; // written but not sent yet
};
struct EnterFailed {};
struct Gen { bool alt = false, enter = false, exit = false, up = false, destroyed = false; size_t hist = 100; unsigned short port = PORT; int throw_at = 0, kill_at = 0, entered = 0, exited = 0; bool kill_on_exit = false; };
struct St {
    std::map<int, Live> live; int tokens = 0; vector<Bcast> bcasts; vector<std::unique_ptr<Part>> parts; int app = -1; bool in_run = false, up = false, stopped = false, ended = false, stop_returned = false; NodeP tree, tree2 /* of a second Cli */;
    int exiting = 0; /* its commands are awaited */ vector<vector<string>> early; bool glob_exit = true; vector<Gen> gens; bool custom_exc = false, custom_wrong = false; int hosts = 0; int entering = 0; bool twins = false, calm = false; int pair = 0; /* sessions alive on one common stream */ string dropped;
};
St* X;
struct RecStorage : cli::HistoryStorage {
    bool alt = false; explicit RecStorage(bool a = false) : alt(a) {}
    void Store(const std::vector<string>& c) override
    {
        NoPreempt np;
        if (!X->exiting) X->early.push_back(c); // before its exit actions: not stated
        else { auto& l = X->live[X->exiting]; if (l.alt != alt) violation("C11,C16", "store", "the commands were given to the history storage of another hierarchy"); l.stored.push_back(c); X->exiting = 0; }
    }
    std::vector<string> Commands() const override { return {}; }
    void Clear() override {}
};
int token_of(std::ostream* o) { for (auto i = X->live.rbegin(); i != X->live.rend(); ++i) if (i->second.o == o && !i->second.dead) return i->first; return 0; }
void on_log(std::ostream& o, const string& l)
{
    NoPreempt np;
    int t = token_of(&o); note("session " + std::to_string(t) + ": " + l);
    if (self_id() != X->app || !X->in_run) violation("C01,C09,C12", "wrong-thread", "handler \"" + l + "\" ran on a thread that is not running the scheduler");
    if (!t) violation("C11,C23", "unknown-session", "handler \"" + l + "\" was called with an output stream that belongs to no live session");
    auto& v = X->live[t];
    if (v.exited && l != "exit") violation("C13,C09", "after-exit", "handler \"" + l + "\" ran after its session had exited");
    v.log.push_back(l);
}
string payload(unsigned long n) { string s; while (s.size() < n) s += "abcdefghijklmnopqrstuvwxyz0123456789"; s.resize(n); return s; }
void broadcast(unsigned long size)
{
    string head, body; { NoPreempt np; Bcast b; b.id = (int)X->bcasts.size(); body = payload(size); b.text = "{{B" + std::to_string(b.id) + ":" + body + "}}\n"; head = "{{B" + std::to_string(b.id) + ":"; for (auto& l : X->live) if (!l.second.dead && !l.second.exited) b.live.insert(l.first); b.pair = X->pair; X->bcasts.push_back(b); note("broadcast " + std::to_string(b.id)); }
    uint32_t how = choose(W, 3);
    if (how == 0) cli::Cli::cout() << head << body << "}}\n";
    else if (how == 1) { cli::Cli::cout() << head + body + "}}" << std::endl; }
    else { cli::Cli::cout() << head << body; cli::Cli::cout().put('}'); cli::Cli::cout() << '}' << "\n" << std::flush; }
}
// the user's view of what was sent to the program
void model_bytes(Part& p, const string& b)
{
    if (!p.modelled) return;
    for (char c : b)
    {
        Key k; bool is = p.kind == "local" ? p.ldec.put(c, k) : p.dec.put(c, k);
        if (is && !p.model_over) { p.m->key(k); if (p.m->exited) { p.model_over = true; p.asked_at_exit = p.dec.asked.size(); } }
    }
}
std::unique_ptr<Sess> new_model(const string& enter, size_t hist, const string& exit_out, vector<string> exit_log, bool alt = false)
{
    auto m = std::make_unique<Sess>((alt ? X->tree2 : X->tree).get(), hist); m->custom_exc = !alt && X->custom_exc; m->custom_wrong = !alt && X->custom_wrong; m->exit_out = exit_out; m->exit_log = std::move(exit_log); m->print(enter); m->prompt(); return m;
}
// ---- reading what a telnet client got
struct Rx { string data; vector<string> cmds; size_t first_data = SIZE_MAX; int st = 0; string cur; };
Rx parse(const string& s)
{
    Rx r; int st = 0; string cur; size_t cmds_before = SIZE_MAX;
    for (char ch : s)
    {
        unsigned char c = (unsigned char)ch;
        switch (st)
        {
            case 0: if (c == 255) { st = 1; cur.clear(); } else { if (cmds_before == SIZE_MAX) cmds_before = r.cmds.size(); r.data += ch; } break;
            case 1: cur += ch; if (c == 250) st = 3; else if (c >= 251 && c <= 254) st = 2; else { r.cmds.push_back(cur); st = 0; } break;
            case 2: cur += ch; r.cmds.push_back(cur); st = 0; break;
            case 3: if (c == 255) st = 4; else cur += ch; break;
            case 4: if (c == 240) { r.cmds.push_back(cur); st = 0; } else { cur += ch; st = 3; } break;
        }
    }
    r.first_data = cmds_before; r.st = st; return r;
}
// takes the broadcasts out of a session's output
string strip(const string& s, bool crlf, vector<int>& ids, const char* who)
{
    string r; size_t i = 0;
    for (;;)
    {
        size_t k = s.find("{{B", i); if (k == string::npos) { r += s.substr(i); break; }
        r += s.substr(i, k - i);
        size_t c = s.find(':', k); if (c == string::npos && s.size() - k < 12) { r += "<<cut>>"; break; } int id = c == string::npos ? -1 : atoi(s.substr(k + 3, c - k - 3).c_str());
        if (id < 0 || (size_t)id >= X->bcasts.size()) violation("C15,C14", "broadcast-garbled", string(who) + ": unknown broadcast \"" + esc(s.substr(k, 60)) + "\"");
        string want = X->bcasts[(size_t)id].text; if (crlf) { want.pop_back(); want += "\r\n"; }
        if (s.compare(k, want.size(), want) != 0)
        {
            if (s.size() - k < want.size() && want.compare(0, s.size() - k, s, k, string::npos) == 0) { r += "<<cut>>"; break; } // the connection ended in the middle
            size_t d = 0; while (d < want.size() && s[k + d] == want[d]) ++d;
            violation("C15,C14", "broadcast-garbled", string(who) + ": shared output " + std::to_string(id) + " (" + std::to_string(want.size()) + " bytes) differs from byte " + std::to_string(d) + " on: \"" + esc(s.substr(k + d, 60)) + "\" instead of \"" + esc(want.substr(d, 60)) + "\"");
        }
        ids.push_back(id); i = k + want.size();
    }
    return r;
}
void check_bcasts(const vector<int>& ids, int token, size_t limit, bool complete, const string& who, bool known_end)
{
    for (size_t i = 1; i < ids.size(); ++i) if (ids[i] <= ids[i - 1]) violation("C15", "broadcast-order", who + ": shared output " + std::to_string(ids[i]) + " arrived after " + std::to_string(ids[i - 1]));
    std::set<int> got(ids.begin(), ids.end());
    for (auto& b : X->bcasts)
    {
        bool want = b.live.count(token) && (size_t)b.id < limit;
        if (want && complete && !got.count(b.id)) violation("C15", "broadcast-lost", who + ": shared output " + std::to_string(b.id) + " did not arrive although the session was alive");
        if (got.count(b.id) && known_end && !b.live.count(token)) violation("C15", "broadcast-stray", who + ": shared output " + std::to_string(b.id) + " arrived although the session was not alive");
    }
}
bool prefix(const vector<string>& a, const vector<string>& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
string join(const vector<string>& v) { string s; for (auto& x : v) s += (s.empty() ? "" : " ") + esc(x); return s; }

const string IAC("\xff", 1);
string negotiation(bool& sub)
{
    static const unsigned char opts[] = { 1, 3, 24, 31, 32, 34, 39, 0, 5, 200, 13, 27, 4, 254, 250, 240, 10 };
    sub = false; string s = IAC; uint32_t w = choose(W, 8);
    if (w < 4) { s += (char)(251 + w); s += choose(W, 4) == 3 ? (char)choose(W, 255) : (char)opts[choose(W, 17)]; return s; }
    if (w == 4) { sub = true; s += (char)250; uint32_t n = choose(W, 8) == 7 ? range(W, 200, 1400) : choose(W, 6); s += (char)31; for (uint32_t i = 0; i < n; ++i) { if (choose(W, 5) == 4) s += "\xff\xff"; else s += "\x0d\x04\x1b" "aexit"[choose(W, 8)]; } s += "\xff\xf0"; return s; }
    static const unsigned char cmds[] = { 241, 242, 243, 244, 245, 246, 247, 248, 249 };
    s += (char)cmds[choose(W, 9)]; return s;
}

template <class MK> void scenario(MK)
{
    St st; X = &st; hooks() = AppHooks();
    bool c9 = focus_is("C09"), c10 = focus_is("C10"), c11 = focus_is("C11"), c12 = focus_is("C12"), c13 = focus_is("C13"), c14 = focus_is("C14"), c15 = focus_is("C15"), c22 = focus_is("C22"), c23 = focus_is("C23"), c4 = focus_is("C04"); (void)c22; (void)c11;
    std::ostream devnull(nullptr); auto* oc = std::cout.rdbuf(devnull.rdbuf()); auto* oe = std::cerr.rdbuf(devnull.rdbuf());
    struct Restore { std::streambuf *a, *b; ~Restore() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } } restore{ oc, oe };
    // ---- the environment
    if (chance(W, c12 ? 0.95 : 0.6))
    {
        double p = pick(W, { 0.01, 0.05, 0.2 });
        cfg.p[F_EINTR] = p; cfg.p[F_SPURIOUS] = p; cfg.p[F_SHORT_READ] = p; cfg.p[F_SHORT_WRITE] = p; cfg.p[F_EAGAIN] = p;
        if (chance(W, c12 ? 0.7 : 0.2)) cfg.p[F_ACCEPT_ERR] = pick(W, { 0.1, 0.4 });
        if (chance(W, c12 ? 0.4 : 0.1)) cfg.p[F_WRITE_RST] = 0.003;
    }
    size_t window = pick(W, { (size_t)65536, (size_t)8192, (size_t)1024, (size_t)200, (size_t)(c14 ? 7 : 2000) }); net_set_window(window);
    st.tree = std_tree(); st.tree2 = std_tree(); st.tree2->name = st.tree2->prompt = "alt"; for (auto n : { st.tree2, st.tree2->kids[10] }) add(n, std_leaf("say", "only"));
    for (auto n : { st.tree, st.tree->kids[10], st.tree2, st.tree2->kids[10] }) { for (string k : { "shout", "dump", "drip" }) add(n, std_leaf(k, k)); for (string k : { "halt", "boot", "fell", "mute" }) add(n, std_leaf("shout", k)); }
    if (chance(W, 0.12)) { cli::SetColor(); probe("colours"); }
    st.custom_exc = chance(W, 0.4); st.custom_wrong = chance(W, 0.3); st.glob_exit = chance(W, 0.8);
    st.twins = chance(W, c9 ? 0.5 : c10 || c12 ? 0.25 : 0.08);
    bool allow_ops = !st.twins;
    int servers = st.twins ? 1 : (int)pick(W, { 1, 1, 1, 2 }); bool with_local = allow_ops && chance(W, c11 || c15 ? 0.4 : 0.1), with_bare = allow_ops && chance(W, c15 || c11 ? 0.7 : 0.3);
    bool two = allow_ops && chance(W, c11 ? 0.3 : 0.1); if (two) probe("two_hierarchies");
    bool crowd = allow_ops && !c4 && chance(W, c11 || c12 || c15 ? 0.06 : 0.02); cfg.max_steps = 1500000;
    double p_kill_server = allow_ops ? (c23 ? 0.8 : c12 ? 0.2 : 0.1) : 0; bool addr_ctor = chance(W, 0.3);
    AsioScheduler* sched = nullptr; std::map<int, std::unique_ptr<AsioTelnetServer>> srv; cli::Cli *clip = nullptr, *clip2 = nullptr; std::unique_ptr<cli::CliLocalTerminalSession> local; Capture local_out; int local_token = 0; bool local_felled = false;
    std::function<void(int)> kill_server;
    std::function<void(int)> make_server = [&](int g) {
        Gen cfgs; { NoPreempt np; cfgs = st.gens[(size_t)g]; note("create server " + std::to_string(g)); }
        cli::Cli& mine = cfgs.alt ? *clip2 : *clip;
        auto s = addr_ctor ? std::make_unique<AsioTelnetServer>(mine, *sched, std::string("127.0.0.1"), cfgs.port, cfgs.hist) : std::make_unique<AsioTelnetServer>(mine, *sched, cfgs.port, cfgs.hist);
        if (cfgs.enter) s->EnterAction([&, g](std::ostream& o) {
            bool t = false, k = false;
            {
                NoPreempt np; int id = token_of(&o); if (!id) violation("C13", "enter-order", "the server's enter action ran before the global one"); auto& l = X->live[id]; l.senters++; auto& gen = st.gens[(size_t)g]; int n = ++gen.entered;
                if (!st.calm) { t = n == gen.throw_at; k = n == gen.kill_at && !gen.kill_on_exit; }
                if (t) { l.aborted = l.dead = true; note("the enter action throws"); count_fault(F_HANDLER_THROW); probe("enter_action_throws"); }
                if (k) probe("server_destroyed_by_enter_action");
            }
            if (k) kill_server(g);
            if (t) throw EnterFailed();
            o << "Hi\n";
        });
        if (cfgs.exit) s->ExitAction([&, g](std::ostream& o) {
            on_log(o, "sexit"); bool k; { NoPreempt np; auto& gen = st.gens[(size_t)g]; k = ++gen.exited == gen.kill_at && gen.kill_on_exit && !st.calm; if (k) probe("server_destroyed_by_exit_action"); }
            if (k) kill_server(g);
            o << "server bye\n";
        });
        srv[g] = std::move(s); NoPreempt np; st.gens[(size_t)g].up = true;
    };
    kill_server = [&](int g) { auto i = srv.find(g); if (i == srv.end()) return; { NoPreempt np; note("destroy server " + std::to_string(g)); count_fault(F_DESTROY); st.gens[(size_t)g].up = false; st.gens[(size_t)g].destroyed = true; } srv.erase(i); NoPreempt np; if (port_listening(st.gens[(size_t)g].port)) violation("C23", "still-listening", "the port is still open after the server was destroyed"); };
    auto new_gen = [&](unsigned short port) { Gen g; g.alt = two && choose(W, 2); g.enter = chance(W, 0.5); g.exit = chance(W, c13 ? 0.7 : 0.4); g.hist = pick(W, { (size_t)100, (size_t)100, (size_t)5, (size_t)2, (size_t)1 }); g.port = port; if (allow_ops && chance(W, c12 || c13 ? 0.15 : 0.04)) { g.enter = true; g.throw_at = 1 + (int)choose(W, 3); } if (chance(W, p_kill_server / 4)) { g.kill_at = 1 + (int)choose(W, 3); g.kill_on_exit = choose(W, 2); (g.kill_on_exit ? g.exit : g.enter) = true; } st.gens.push_back(g); return (int)st.gens.size() - 1; };
    for (int i = 0; i < servers; ++i) new_gen((unsigned short)(PORT + i));
    std::map<unsigned short, int> gen_at; // port -> generation serving it
    for (int i = 0; i < servers; ++i) gen_at[(unsigned short)(PORT + i)] = i;
    // ---- bare sessions (created and destroyed by tasks and handlers)
    std::function<Part*()> make_bare = [&]() -> Part* {
        Part* p; bool alt = two && choose(W, 2); { NoPreempt np; st.parts.push_back(std::make_unique<Part>()); p = st.parts.back().get(); p->id = (int)st.parts.size() - 1; p->kind = "bare"; p->broken = chance(W, c15 ? 0.15 : 0.05); if (p->broken) { probe("broken_output"); p->out.reset(new BrokenCapture(choose(W, 120))); if (choose(W, 3) == 1) p->out->rdbuf(nullptr); } else p->out.reset(new Capture); p->token = ++st.tokens; auto& l = st.live[p->token]; l.kind = "bare"; l.o = p->out.get(); l.part = p->id; l.alt = alt; p->m = new_model("", 20, alt ? "Farewell\n" : st.glob_exit ? "Goodbye\n" : "", { "exit" }, alt); note("create bare session " + std::to_string(p->token)); }
        p->bare.reset(new cli::CliSession(alt ? *clip2 : *clip, *p->out, 20)); p->bare->Prompt(); return p;
    };
    auto kill_bare = [&](Part* p) { if (!p->bare) return; { NoPreempt np; note("destroy bare session " + std::to_string(p->token)); count_fault(F_DESTROY); } p->bare.reset(); NoPreempt np; st.live[p->token].dead = true; };
    auto feed_bare = [&](Part* p, const string& l) { { NoPreempt np; if (!p->bare || p->m->exited) return; p->m->feed(l); p->m->prompt(); } p->bare->Feed(l); p->bare->Prompt(); };
    // ---- two sessions on one stream (a script running on the terminal of another session, say)
    Capture common; std::unique_ptr<cli::CliSession> pair[2]; bool with_pair = allow_ops && chance(W, c15 ? 0.4 : 0.08);
    auto toggle = [&](uint32_t k) {
        if (pair[k]) { pair[k].reset(); NoPreempt np; st.pair--; note("destroy common session"); if (st.pair) probe("one_of_two_on_a_stream_destroyed"); }
        else { pair[k].reset(new cli::CliSession(*clip, common, 5)); NoPreempt np; st.pair++; note("create common session"); }
    };
    // ---- the program
    size_t base_fds = open_fds().size(); size_t loop_fds = 0; bool final_destroy_first = chance(W, 0.5), onestep = chance(W, 0.2), ext = chance(W, 0.1);
    spawn_app("program", [&] {
        { NoPreempt np; st.app = self_id(); }
        hooks().log = [](std::ostream& o, const string& l) { on_log(o, l); };
        hooks().special = [&](std::ostream& o, const string& n, unsigned long x) {
            if (n == "shout") { broadcast(std::min(x, 30000ul)); return; }
            unsigned short port = (unsigned short)(PORT + x % (unsigned)servers); int g = 0; Part* b = nullptr; bool fell_local = false;
            {
                NoPreempt np; if (n == "halt") g = gen_at[port];
                else if (n == "boot") { g = -1; if (!st.gens[(size_t)gen_at[port]].up && !st.calm) { g = new_gen(port); gen_at[port] = g; } }
                else if (n == "fell") { vector<Part*> bs; for (auto& q : st.parts) if (q->kind == "bare" && q->bare && q->out.get() != &o) bs.push_back(q.get()); if (!bs.empty()) b = bs[x % bs.size()]; }
                else fell_local = local_token && &o != &local_out && !st.live[local_token].dead && !st.calm;
            }
            if (n == "halt") { if (!st.calm) { kill_server(g); probe("server_destroyed_by_handler"); } }
            else if (n == "boot") { if (g >= 0) { make_server(g); probe("server_created_by_handler"); } }
            else if (b) { kill_bare(b); probe("bare_destroyed_by_handler"); }
            else if (fell_local) { local.reset(); NoPreempt np; st.live[local_token].dead = true; local_felled = true; probe("local_destroyed_by_handler"); }
        };
        auto root = std::make_unique<cli::Menu>("cli"); install(*root, st.tree);
        auto clp = std::make_unique<cli::Cli>(std::move(root), std::make_unique<RecStorage>()); cli::Cli& cl = *clp;
        cl.EnterAction([&](std::ostream& o) {
            int t; { NoPreempt np; t = &o == &local_out ? local_token : ++st.tokens; auto& l = st.live[t]; l.o = &o; l.enters++; if (l.kind.empty()) l.kind = "remote"; note("session " + std::to_string(t) + " enters"); if (self_id() != X->app) violation("C13,C12", "wrong-thread", "the enter action ran on another thread"); }
            char b[32]; snprintf(b, sizeof b, "Hello #%05d\n", t); o << b;
        });
        auto on_exit = [&](std::ostream& o, bool alt) { on_log(o, "exit"); { NoPreempt np; int t = token_of(&o); if (st.live[t].alt != alt) violation("C11,C13", "wrong-action", "the exit action of another hierarchy ran"); st.live[t].exited = true; if (st.early.empty()) st.exiting = t; else { st.live[t].stored.push_back(st.early.front()); st.early.erase(st.early.begin()); } } };
        cl.ExitAction([&](std::ostream& o) { on_exit(o, false); if (st.glob_exit) o << "Goodbye\n"; });
        if (st.custom_exc) cl.StdExceptionHandler([](std::ostream& o, const string& c, const std::exception& e) { on_log(o, string("exception:") + e.what()); o << "exc(" << c << "," << e.what() << ")\n"; });
        if (st.custom_wrong) cl.WrongCommandHandler([](std::ostream& o, const string& c) { on_log(o, "wrong:" + c); o << "wrong(" << c << ")\n"; });
        clip = &cl;
        std::unique_ptr<cli::Cli> cl2;
        if (two)
        {
            auto root2 = std::make_unique<cli::Menu>("alt"); install(*root2, st.tree2); cl2.reset(new cli::Cli(std::move(root2), std::make_unique<RecStorage>(true))); clip2 = cl2.get();
            cl2->EnterAction([&](std::ostream& o) {
                int t; { NoPreempt np; t = ++st.tokens; auto& l = st.live[t]; l.alt = true; l.o = &o; l.enters++; l.kind = "remote"; note("session " + std::to_string(t) + " enters the second hierarchy"); }
                char b[48]; snprintf(b, sizeof b, "Hello #%05d\nSecond\n", t); o << b;
            });
            cl2->ExitAction([&](std::ostream& o) { on_exit(o, true); o << "Farewell\n"; });
        }
        {
            std::unique_ptr<asiox::io_context> ctx; std::unique_ptr<asiox::executor_work_guard<asiox::io_context::executor_type>> guard;
            if (ext) { ctx.reset(new asiox::io_context); guard.reset(new asiox::executor_work_guard<asiox::io_context::executor_type>(ctx->get_executor())); probe("external_context"); }
            std::unique_ptr<AsioScheduler> sp(ext ? new AsioScheduler(*ctx) : new AsioScheduler); AsioScheduler& s = *sp; sched = &s;
            for (int i = 0; i < servers; ++i) make_server(i);
            { NoPreempt np; loop_fds = open_fds().size() - (size_t)servers; }
            s.Post([&] { NoPreempt np; st.up = true; });
            { NoPreempt np; st.in_run = true; }
            for (;;) try { if (onestep) while (!s.Stopped()) s.ExecOne(); else s.Run(); break; }
            catch (const EnterFailed&) {}
            catch (const std::exception& e) { NoPreempt np; violation("C12,C22,C23,C13", "exception-escapes", string("the scheduler threw ") + e.what()); }
            catch (...) { NoPreempt np; violation("C12,C22,C23", "exception-escapes", "the scheduler threw something"); }
            { NoPreempt np; st.in_run = false; st.stopped = true; note("scheduler returned"); }
            block_until("stopper", [&] { return st.stop_returned; });
            for (auto& p : st.parts) if (p->kind == "bare") kill_bare(p.get());
            for (uint32_t k : { 0u, 1u }) if (pair[k]) toggle(k);
            if (final_destroy_first) { local.reset(); srv.clear(); }
            else if (chance(W, 0.5)) { srv.clear(); local.reset(); }
            else { local.reset(); srv.clear(); }
            { NoPreempt np; for (auto& l : st.live) if (l.second.kind == "local") l.second.dead = true; }
            if (chance(W, 0.3)) { clp.reset(); cl2.reset(); probe("hierarchy_destroyed_before_scheduler"); } // the connections left are destroyed with the scheduler
        }
        sched = nullptr;
        broadcast(5); // nobody is left
        NoPreempt np; st.ended = true; clip = nullptr; note("program ends");
    });
    mark_env();
    if (!block_until("server", [&] { return st.up; }, 5000000)) violation("C12", "no-start", "the program does not start");
    auto post = [&](std::function<void()> f) { sched->Post(std::move(f)); };
    // ---- remote clients
    auto flush = [&](Part& p, bool fast) {
        string b = p.pending; p.pending.clear(); size_t i = 0; uint32_t mode = fast ? 0 : choose(W, 4);
        while (i < b.size())
        {
            size_t n = b.size() - i; if (mode == 1) n = 1; else if (mode >= 2) n = std::min<size_t>(n, 1 + choose(W, mode == 2 ? 4 : 40));
            uint64_t d = mode && choose(W, 3) == 2 ? 1 + choose(W, 500) : 0; if (mode) count_fault(F_SEGMENT); if (d) count_fault(F_NET_DELAY);
            p.cl.send(b.substr(i, n), d); i += n;
            if (mode && choose(W, 4) == 1) sleep_us(choose(W, 200));
        }
    };
    auto reader = [&](Part* p) {
        spawn_env("reader", [p] {
            for (;;)
            {
                block_until("data", [p] { return p->cl.available() || p->cl.peer_closed() || p->cl.gone() || X->ended; });
                if (p->cl.available()) { size_t n = p->chunk; if (p->slow) n = 1 + choose(W, (uint32_t)p->chunk); string s = p->cl.take(n); { NoPreempt np; p->rx += s; } if (p->slow && choose(W, 2)) { count_fault(F_SLOW_READER); sleep_us(choose(W, p->slow)); } continue; }
                break;
            }
            NoPreempt np; p->reader_done = true;
        });
    };
    auto connect = [&](Part& p, unsigned short port) {
        NoPreempt np; p.gen = gen_at[port]; if (!p.cl.connect(port)) { note("client " + std::to_string(p.id) + ": connection refused"); if (st.gens[(size_t)p.gen].up && st.gens[(size_t)p.gen].port == port) violation("C12,C23", "not-listening", "the server does not listen"); return false; }
        p.connected = true; note("client " + std::to_string(p.id) + " connects"); return true;
    };
    auto remote_model = [&](Part& p) { Gen& g = st.gens[(size_t)p.gen]; p.m = new_model("Hello #00000\n" + string(g.alt ? "Second\n" : "") + string(g.enter ? "Hi\n" : ""), g.hist, string(g.exit ? "server bye\n" : "") + (g.alt ? "Farewell\n" : st.glob_exit ? "Goodbye\n" : ""), g.exit ? vector<string>{ "sexit", "exit" } : vector<string>{ "exit" }, g.alt); };
    auto put = [&](Part& p, const string& b) { NoPreempt np; p.sent += b; p.pending += b; model_bytes(p, b); };
    auto send_keys = [&](Part& p, const vector<Key>& ks, bool neg) {
        for (auto k : ks)
        {
            string b = key_bytes(k.k, k.c, true, (int)choose(W, 2));
            for (size_t i = 0; i < b.size(); ++i)
            {
                if (neg && choose(W, c10 ? 6 : 20) == 1) { bool sub; p.negotiated = true; put(p, negotiation(sub)); probe("negotiation_inside_text"); if (i) probe("negotiation_inside_key"); }
                put(p, b.substr(i, 1));
            }
        }
    };
    auto script = [&](Part* p) {
        uint32_t kind = choose(W, 16);
        enum { NORMAL, SILENT, FLASH, HOSTILE } k = kind < 12 || !allow_ops ? NORMAL : kind == 12 ? SILENT : kind == 13 ? FLASH : (c12 || c10) ? HOSTILE : NORMAL;
        if (choose(W, 3)) sleep_us(choose(W, 2000));
        unsigned short port = (unsigned short)(PORT + choose(W, (uint32_t)servers));
        if (!connect(*p, port)) { NoPreempt np; p->writer_done = true; return; }
        remote_model(*p); reader(p); Part& q = *p;
        bool neg = chance(W, c10 ? 0.9 : 0.4), edit = chance(W, 0.6);
        if (k == FLASH) { if (choose(W, 2)) q.cl.rst(choose(W, 100)); else q.cl.close(choose(W, 100)); probe("flash_client"); }
        else if (k == SILENT) probe("silent_client");
        else if (k == HOSTILE)
        {
            q.modelled = false; string s; uint32_t n = 1 + choose(W, 200);
            static const char al[] = { (char)255, (char)255, (char)250, (char)240, (char)251, (char)253, (char)254, (char)252, (char)241, 1, 3, 31, 13, 13, 10, 0, 27, '[', 'A', '3', '~', 'B', 'a', 'e', 'x', 'i', 't', ' ', '!', '1', '"', '\'', '\\', 9, 8, 127, 12, (char)200 };
            for (uint32_t i = 0; i < n; ++i) s += choose(W, 40) == 1 ? (char)4 : al[choose(W, sizeof al)];
            q.pending = s; flush(q, false); probe("hostile_client");
            uint32_t e = choose(W, 4); if (e == 1) q.cl.rst(choose(W, 300)); else if (e == 2) q.cl.close(choose(W, 300)); else if (e == 3) { NoPreempt np; q.bcasts_at_fin = st.bcasts.size(); q.fin = true; q.cl.fin(choose(W, 300)); }
        }
        else
        {
            Typist ty; ty.root = st.tree.get(); ty.edit = edit; ty.fails = true; ty.specials = { "nap 300" }; if (two) for (auto x : { "only x", "sub only y", "cli", "alt" }) ty.specials.push_back(x);
            if (c14) { ty.specials.push_back("big 40"); ty.specials.push_back("big 12"); if (choose(W, 6) == 1) ty.specials.push_back("big 300"); ty.specials.push_back("dump 1500"); ty.specials.push_back("drip 150"); if (choose(W, 4) == 1 && window >= 1000) ty.specials.push_back("dump 9000"); if (choose(W, 12) == 1 && window > 8000) ty.specials.push_back("dump 150000"); }
            if (allow_ops && (c15 || choose(W, 3) == 1)) { ty.specials.push_back("shout 3"); ty.specials.push_back("shout 30"); if (choose(W, 4) == 1) ty.specials.push_back("shout 2500"); if (choose(W, 24) == 1 && window > 8000) ty.specials.push_back("shout 20000"); }
            if (allow_ops && chance(W, p_kill_server / 2)) { ty.specials.push_back("halt 0"); ty.specials.push_back("boot 0"); if (servers > 1) { ty.specials.push_back("halt 1"); ty.specials.push_back("boot 1"); } }
            if (allow_ops && chance(W, c23 ? 0.5 : 0.1)) { ty.specials.push_back("fell 0"); ty.specials.push_back("fell 1"); ty.specials.push_back("mute 0"); }
            int bursts = (int)range(W, 1, c4 ? 2 : crowd ? 2 : 6); bool pipelined = chance(W, 0.3);
            for (int b = 0; b < bursts && !q.cl.gone(); ++b)
            {
                send_keys(q, ty.burst(choose(W, 10) != 9), neg);
                if (neg && choose(W, 3) == 1) { bool sub; q.negotiated = true; put(q, negotiation(sub)); }
                if (!pipelined) { flush(q, false); if (choose(W, 2)) sleep_us(choose(W, 1500)); if (choose(W, 60) == 1) { sleep_us(1000000ull * pick(W, { 2u, 31u, 70u, 305u, 650u, 1900u, 3700u, 90000u })); probe("long_pause"); } }
            }
            if (chance(W, c9 || c12 ? 0.12 : 0.04)) // a paste: more than one read of the server can take
            {
                flush(q, false); uint32_t total = range(W, 900, 3000); string t = choose(W, 2) ? "\r\n" : string("\r\0", 2), s;
                if (choose(W, 3) == 1) { s = "say"; while (s.size() < total / 2) s += " " + ty.word(); s += t; }
                while (s.size() < total) s += (choose(W, 3) ? "echo " : "say x ") + ty.word() + t;
                put(q, s); flush(q, choose(W, 3) != 0); probe("paste");
            }
            uint32_t e = choose(W, 8);
            if (e <= 2) // leaves by itself: exit command or end-of-input key, sometimes with more typed behind it
            {
                if (choose(W, 3) == 1) send_keys(q, { { K::end }, { K::enter }, { K::eof } }, neg);
                else { vector<Key> ks{ { K::end }, { K::enter } }; for (char c : string("exit")) ks.push_back({ K::ch, c }); ks.push_back({ K::enter }); send_keys(q, ks, neg); }
                if (choose(W, 2)) { send_keys(q, ty.burst(true), neg); probe("typed_after_exit"); if (choose(W, 3) == 1) send_keys(q, { { K::eof } }, false); }
                flush(q, choose(W, 2));
                if (choose(W, 6) == 1) { NoPreempt np; q.fin = true; q.bcasts_at_fin = 0; q.cl.fin(choose(W, 200)); }
            }
            else if (e == 3) { flush(q, false); NoPreempt np; note("client " + std::to_string(q.id) + " half-closes"); count_fault(F_FIN); q.bcasts_at_fin = st.bcasts.size(); q.fin = true; q.cl.fin(choose(W, 200)); }
            else if (e == 4) { flush(q, choose(W, 2)); if (choose(W, 2)) sleep_us(choose(W, 500)); note("client " + std::to_string(q.id) + " closes"); q.cl.close(choose(W, 200)); }
            else if (e == 5) { flush(q, choose(W, 2)); if (choose(W, 2)) sleep_us(choose(W, 500)); note("client " + std::to_string(q.id) + " resets"); q.cl.rst(choose(W, 200)); }
            else flush(q, false); // stays
        }
        NoPreempt np; p->writer_done = true; note("client " + std::to_string(p->id) + " is done");
    };
    int clients = st.twins ? 2 : crowd ? (int)range(W, 8, 20) : (int)range(W, c4 ? 2 : 1, c4 ? 3 : 5); if (crowd) probe("crowd");
    auto add_client = [&] { st.parts.push_back(std::make_unique<Part>()); Part* p = st.parts.back().get(); p->id = (int)st.parts.size() - 1; p->kind = "remote"; if (choose(W, 3) == 1 || (c14 && choose(W, 3))) { p->slow = 1 + choose(W, 800); p->chunk = pick(W, { (size_t)4096, (size_t)100, (size_t)20 }); } return p; };
    vector<Part*> remote;
    if (st.twins)
    {
        string s; uint32_t n = chance(W, 0.1) ? range(W, 400, 900) : 1 + choose(W, 120); cfg.p[F_ACCEPT_ERR] = 0; cfg.p[F_WRITE_RST] = 0;
        static const char al[] = { (char)255, (char)255, (char)250, (char)240, (char)251, (char)253, (char)254, (char)252, (char)241, 1, 3, 31, 13, 10, 0, 27, '[', 'A', '3', '~', 'D', 'C', 'F', 'H', 'B', '!', '0', '"', '\'', '\\', 9, 8, 127, 12, (char)200 };
        static const char* words[] = { "echo a", "say b c", "sub", "..", "exit", "history", "fail", "\r\n", "help" };
        for (uint32_t i = 0; i < n; ++i) { uint32_t w = choose(W, 10); if (w == 0) { s += words[choose(W, 7)]; s += choose(W, 2) ? string("\r\0", 2) : "\r\n"; } else if (w < 3) s += words[choose(W, 9)]; else if (w == 3) s += string("\r\0", 2); else s += choose(W, 60) == 1 ? (char)4 : al[choose(W, sizeof al)]; }
        for (int j = 0; j < 2; ++j)
        {
            Part* p = add_client(); p->modelled = false; p->twin = 1 - j; remote.push_back(p); bool single = j == 0 && chance(W, 0.6);
            spawn_env("twin", [&, p, s, single] { connect(*p, PORT); remote_model(*p); reader(p); p->sent = s; if (single) { for (char c : s) { p->cl.send(string(1, c)); if (choose(W, 4) == 1) sleep_us(choose(W, 300)); } } else { p->pending = s; flush(*p, choose(W, 5) == 1); } p->fin = true; p->cl.fin(choose(W, 100)); NoPreempt np; p->writer_done = true; });
        }
        probe("twin_clients");
    }
    else for (int i = 0; i < clients; ++i) { Part* p = add_client(); remote.push_back(p); spawn_env("client", [&, p] { script(p); }); }
    // ---- many short visits
    if (allow_ops && !c4 && !crowd && chance(W, c12 ? 0.05 : c13 || c23 ? 0.02 : 0.008))
    {
        int n = (int)range(W, 10, c12 ? 150 : 60); vector<Part*> fl; for (int i = 0; i < n; ++i) { Part* p = add_client(); p->slow = 0; remote.push_back(p); fl.push_back(p); } probe("flood");
        uint32_t mostly = choose(W, 5);
        spawn_env("flood", [&, fl, mostly] {
            for (Part* p : fl)
            {
                if (connect(*p, (unsigned short)(PORT + choose(W, (uint32_t)servers))))
                {
                    remote_model(*p); uint32_t k = mostly < 4 && choose(W, 4) ? mostly : choose(W, 4); if (choose(W, 3) == 1) { put(*p, "echo f\r\n"); flush(*p, true); }
                    if (k == 0) { reader(p); put(*p, "exit\r\n"); flush(*p, true); if (choose(W, 2)) block_until("visitor", [&] { return p->cl.peer_closed() || p->cl.gone(); }, 5000000); }
                    else if (k == 1) { reader(p); NoPreempt np; p->bcasts_at_fin = st.bcasts.size(); p->fin = true; p->cl.fin(choose(W, 200)); }
                    else if (k == 2) p->cl.close(choose(W, 300));
                    else p->cl.rst(choose(W, 300));
                }
                { NoPreempt np; p->writer_done = true; }
                if (choose(W, 3) == 1) sleep_us(choose(W, 200));
            }
        });
    }
    // ---- the local terminal
    if (with_local)
    {
        stdin_reset(true); Part* p = add_client(); p->kind = "local"; p->token = local_token = ++st.tokens; { auto& l = st.live[local_token]; l.kind = "local"; l.o = &local_out; l.part = p->id; l.dead = true; }
        p->m = new_model("Hello #00000\n", 10, st.glob_exit ? "Goodbye\n" : "", { "exit" });
        spawn_app("local-starter", [&] { post([&] { { NoPreempt np; st.live[local_token].dead = false; note("create local session"); } local.reset(new cli::CliLocalTerminalSession(*clip, *sched, local_out, 10)); }); });
        spawn_env("typist", [&, p] {
            Typist ty; ty.root = st.tree.get(); ty.edit = false; ty.specials = { "shout 4" };
            int n = (int)range(W, 1, 8); for (int i = 0; i < n; ++i) { if (choose(W, 2)) sleep_us(choose(W, 1500)); string l = ty.cmdline() + "\r"; NoPreempt np; string seen = l; seen.back() = '\n'; model_bytes(*p, seen); stdin_type(l); }
            NoPreempt np; p->writer_done = true;
        });
    }
    // ---- operations of the program itself
    bool op_done = true;
    if (allow_ops)
    {
        op_done = false; int n = (int)choose(W, c23 || c15 ? 10 : 6);
        spawn_app("operator", [&, n] {
            vector<Part*> bares; auto mine = std::make_shared<vector<Part*>>();
            for (int i = 0; i < n; ++i)
            {
                if (choose(W, 4)) sleep_us(choose(W, 2500));
                if (with_pair && choose(W, 2)) { uint32_t k = choose(W, 2); bool b = choose(W, 2); post([&, k, b] { toggle(k); if (b) broadcast(6); }); continue; }
                uint32_t w = choose(W, 10);
                if (w < 3) { uint32_t sz = pick(W, { 1u, 10u, 100u, 1500u }); if (!c15 && w == 2) continue; post([sz] { broadcast(sz); }); }
                else if (w < 5) { if (with_bare) post([&, mine] { mine->push_back(make_bare()); if (choose(W, 2)) broadcast(7); }); }
                else if (w < 7) { if (with_bare) { static const char* ls[] = { "echo b", "sub", "shout 5", "..", "fail", "say x y", "history", "exit", "! 0", "nope", "add 3 4" }; string l = ls[choose(W, 11)]; uint32_t k = choose(W, 3); post([&, mine, l, k] { if (mine->empty()) return; feed_bare((*mine)[k % mine->size()], l); }); } }
                else if (w < 8) { if (with_bare) { uint32_t k = choose(W, 3); bool b = choose(W, 2); post([&, mine, k, b] { if (mine->empty()) return; Part* p = (*mine)[k % mine->size()]; mine->erase(mine->begin() + (long)(k % mine->size())); kill_bare(p); if (b) broadcast(3); }); } }
                else if (choose(W, 5) == 1)
                {
                    unsigned short port = (unsigned short)(PORT + choose(W, (uint32_t)servers));
                    post([&, port] {
                        size_t fds; { NoPreempt np; if (!st.gens[(size_t)gen_at[port]].up) return; fds = open_fds().size(); }
                        bool thrown = false; try { AsioTelnetServer busy(*clip, *sched, port); } catch (const std::exception&) { thrown = true; }
                        NoPreempt np; probe("port_busy"); if (!thrown) violation("C12,C23", "port-shared", "a second server was created on a port in use"); if (open_fds().size() != fds) violation("C12,C23,C28", "fd-leak", "descriptors leak when a server cannot be created");
                    });
                }
                else if (chance(W, p_kill_server))
                {
                    unsigned short port = (unsigned short)(PORT + choose(W, (uint32_t)servers)); bool again = choose(W, 4) != 0; bool same_task = choose(W, 2);
                    post([&, port, again, same_task] {
                        int g; { NoPreempt np; g = gen_at[port]; } kill_server(g);
                        if (again) { auto re = [&, port] { int h; { NoPreempt np; if (st.gens[(size_t)gen_at[port]].up) return; h = new_gen(port); gen_at[port] = h; } try { make_server(h); probe("port_reused"); } catch (const std::exception& e) { NoPreempt np; violation("C23", "port-busy", string("the port of the destroyed server cannot be used again: ") + e.what()); } }; if (same_task) re(); else post(re); }
                    });
                }
            }
            NoPreempt np; op_done = true;
        });
    }
    // ---- everybody finishes, the faults stop
    auto done = [&] { if (!op_done) return false; for (auto& p : st.parts) if (p->kind != "bare" && !p->writer_done) return false; return true; };
    if (!block_until("clients", done, 1000000000000ull)) violation("C12,C09", "clients-stuck", "the clients cannot finish");
    wait_idle();
    for (auto& f : cfg.p) f = 0;
    st.calm = true;
    wait_idle();
    // ---- a new client is served once the faults have stopped
    for (auto& gp : gen_at)
    {
        if (!st.gens[(size_t)gp.second].up || !chance(W, 0.6)) continue;
        Part* p = add_client(); remote.push_back(p); p->slow = 0; if (!connect(*p, gp.first)) continue;
        remote_model(*p); reader(p); put(*p, "echo late\r\n"); flush(*p, true);
        if (!block_until("late client", [&] { return p->rx.find("<late>") != string::npos || p->cl.gone(); }, 10000000)) violation("C12,C23", "not-served", "a client that connects after the faults have stopped is not served" + string(p->cl.accepted() ? "" : " (connection not accepted)"));
        if (choose(W, 2)) { put(*p, "exit\r\n"); flush(*p, true); if (!block_until("late exit", [&] { return p->cl.peer_closed(); }, 10000000)) violation("C12,C13", "not-closed", "the connection is not closed after exit"); }
        p->writer_done = true; probe("served_after_faults"); 
    }
    wait_idle();
    // ---- judgement
    auto check_part = [&](Part& p) {
        string who = p.kind + " session of user " + std::to_string(p.id);
        if (p.kind == "remote")
        {
            if (!p.connected) return;
            bool gone = p.cl.gone(); if (gone) { NoPreempt np; p.rx += p.cl.take(); }
            if (!p.reader_done && !p.cl.peer_closed()) { } // still connected
            Rx r = parse(p.rx); vector<int> ids; string data = strip(r.data, true, ids, who.c_str());
            size_t h = data.find("Hello #"); p.token = 0; if (h != string::npos && data.size() >= h + 12) { p.token = atoi(data.substr(h + 7, 5).c_str()); data.replace(h + 7, 5, "00000"); }
            if (p.token) { auto& l = st.live[p.token]; if (l.part >= 0 && l.part != p.id) violation("C11", "mixed", who + " got the greeting of another session"); l.part = p.id; }
            if (!p.token)
            {
                if (gone) return; // matched below
                if (p.cl.accepted() && p.cl.peer_closed() && st.gens[(size_t)p.gen].throw_at) return; // the enter action failed; what it had written can get lost with unread input
                if (p.cl.accepted() && p.cl.peer_closed() && st.gens[(size_t)p.gen].destroyed) return; // its server was destroyed before the session began
                if (p.cl.accepted()) violation("C12,C14,C13", "no-greeting", who + ": accepted but the enter action's output did not arrive; got \"" + esc(p.rx.substr(0, 80)) + "\"");
                if (p.cl.peer_closed()) return; // never accepted: refused by a fault or by the destruction of the server
                violation("C12,C23", "never-accepted", who + ": the connection is neither accepted nor refused");
            }
            Live& l = st.live[p.token];
            if (l.enters != 1) violation("C13", "enter-count", who + ": the global enter action ran " + std::to_string(l.enters) + " times");
            if (l.senters != (st.gens[(size_t)p.gen].enter ? 1 : 0) && st.gens.size() == (size_t)servers) violation("C13", "enter-count", who + ": the server's enter action ran " + std::to_string(l.senters) + " times");
            // the generation of the server that accepted it may differ from the one it connected to: never (the backlog dies with its server)
            static const vector<string> offers{ string("\xfd\x22", 2), string("\xfa\x22\x01\x00", 4), string("\xfb\x01", 2) };
            for (size_t i = 0; i < r.cmds.size() && i < 3; ++i) if (r.cmds[i] != offers[i]) violation("C10", "offers", who + ": the server's option offers are \"" + join(r.cmds) + "\"");
            if (r.first_data < 3 || r.cmds.size() < (gone ? 0 : 3)) violation("C10", "offers", who + ": text was sent before the option offers");
            for (size_t i = 0; i < data.size(); ++i) if (data[i] == '\n' && (i == 0 || data[i - 1] != '\r')) violation("C14", "crlf", who + ": a line feed arrived without carriage return");
            if (l.aborted)
            {
                if (!l.log.empty()) violation("C13,C12", "after-abort", who + ": its enter action threw, but \"" + l.log[0] + "\" was executed");
                if (!gone && !p.cl.peer_closed()) violation("C12,C13,C23", "not-closed", who + ": its enter action threw, but the connection stays open");
                return;
            }
            check_bcasts(ids, p.token, std::min(p.bcasts_at_fin, st.bcasts.size()), !gone, who, false);
            if (p.modelled)
            {
                if (!prefix(l.log, p.m->log)) { size_t k = 0; while (k < l.log.size() && k < p.m->log.size() && l.log[k] == p.m->log[k]) ++k; violation("C09,C11,C13,C22,C10,C05", "wrong-command", who + ": handler call number " + std::to_string(k + 1) + " was \"" + l.log[k] + "\" instead of " + (k < p.m->log.size() ? "\"" + p.m->log[k] + "\"" : "nothing") + " (typed: \"" + esc(p.sent.substr(0, 300)) + "\")"); }
                if (l.stored.size() > p.m->stored.size() || !std::equal(l.stored.begin(), l.stored.end(), p.m->stored.begin())) violation("C13,C16,C11", "store", who + ": the commands given to the history storage differ from those entered: " + (l.stored.empty() ? "" : join(l.stored[0])) + " / " + (p.m->stored.empty() ? "(none)" : join(p.m->stored[0])));
                if (gone) return;
                if (l.log.size() != p.m->log.size()) violation("C09,C11,C12,C13,C22,C23,C10", "command-lost", who + ": " + std::to_string(l.log.size()) + " handler calls but the typed text asks for " + std::to_string(p.m->log.size()) + ", next \"" + p.m->log[l.log.size()] + "\" (typed: \"" + esc(p.sent.substr(0, 300)) + "\")");
                if (l.stored != p.m->stored) violation("C13,C16,C11", "store", who + ": the commands were not given to the history storage at exit");
                // replies to the option negotiation
                size_t must = std::min(p.asked_at_exit, p.dec.asked.size()), got = r.cmds.size() - std::min<size_t>(3, r.cmds.size());
                for (size_t i = 0; i < got; ++i)
                {
                    const string& c = r.cmds[3 + i];
                    if (i >= p.dec.asked.size()) violation("C10", "extra-reply", who + ": the server sent an unasked option command \"" + esc(c) + "\"");
                    auto a = p.dec.asked[i]; bool ok = c.size() == 2 && (unsigned char)c[1] == a.second; unsigned char v = (unsigned char)c[0];
                    if (a.first == 251) ok = ok && (a.second == 3 ? v == 251 || v == 253 : a.second == 31 ? v == 253 : v == 254);
                    else ok = ok && (a.second == 1 ? v == 253 || v == 251 : a.second == 3 ? v == 251 : v == 252);
                    if (!ok) violation("C10", "wrong-reply", who + ": \"" + esc(c) + "\" answers the client's " + (a.first == 251 ? "WILL " : "DO ") + std::to_string(a.second));
                }
                if (got < must) violation("C10,C14", "missing-reply", who + ": " + std::to_string(got) + " of " + std::to_string(must) + " option requests were answered");
                if (must) stat_add("option_requests", must);
                if (p.m->exited && !p.cl.peer_closed()) violation("C13,C12", "not-closed", who + ": the connection is not closed after exit");
                if (!p.m->exited && p.fin && !p.cl.peer_closed()) violation("C12", "not-closed", who + ": the connection stays open after the client closed its side");
                if (!p.m->exited && !p.fin && p.cl.peer_closed()) { if (st.gens[(size_t)p.gen].destroyed) { probe("closed_with_server"); return; } violation("C12,C13,C11", "closed", who + ": the server closed the connection although the session did not exit"); }
                if (!p.m->messy)
                {
                    Screen s; s.crlf = false; s.feed(data);
                    if (s.text() != p.m->text()) violation(p.negotiated ? "C09,C10,C11,C13,C14,C22" : "C09,C11,C13,C14,C22", "screen", who + ": " + diff(s.text(), p.m->text()) + " (typed: \"" + esc(p.sent.substr(0, 300)) + "\")");
                    if (s.r != p.m->rows.size() || s.c != p.m->column()) { if (!p.m->exited) violation("C09,C14", "cursor", who + ": the cursor is at row " + std::to_string(s.r) + " column " + std::to_string(s.c) + " instead of " + std::to_string(p.m->rows.size()) + "," + std::to_string(p.m->column())); }
                    probe("screen_compared");
                }
            }
            else if (p.twin >= 0 && p.twin > p.id)
            {
                Part& o = *st.parts[(size_t)p.twin]; Rx r2 = parse(o.rx); string d2 = r2.data; size_t h2 = d2.find("Hello #"); int tok = h2 == string::npos ? 0 : atoi(d2.substr(h2 + 7, 5).c_str()); if (h2 != string::npos) d2.replace(h2 + 7, 5, "00000");
                auto cut = [](string a) { size_t n = a.size(); while (n && a[n - 1] == 0) --n; return a.substr(0, n); };
                if (st.live[tok].log != l.log) violation("C09", "segmentation-commands", "the same bytes in other segments: handler calls \"" + join(st.live[tok].log) + "\" instead of \"" + join(l.log) + "\" (sent: \"" + esc(p.sent) + "\")");
                if (l.exited != st.live[tok].exited) violation("C09", "segmentation-exit", "the same bytes in other segments end the session only once");
                if (!l.exited && (cut(d2) != cut(data) || r.cmds != r2.cmds)) violation("C09,C10", "segmentation-output", "the same bytes in other segments give other output: " + diff(esc(d2), esc(data)) + " / " + diff(join(r2.cmds), join(r.cmds)));
                if (l.exited && cut(d2) != cut(data)) violation("C09", "segmentation-output", "the same bytes in other segments give other output: " + diff(esc(d2), esc(data)));
                if (!p.cl.peer_closed() || !o.cl.peer_closed()) violation("C12,C09", "not-closed", "the connection stays open after the client closed its side");
                probe("twins_compared");
            }
        }
        else if (p.kind == "bare" || p.kind == "local")
        {
            Live& l = st.live[p.token]; Capture& c = p.kind == "bare" ? *p.out : local_out; vector<int> ids; string data = p.broken ? "" : strip(c.b.s, false, ids, who.c_str());
            size_t h = data.find("Hello #"); if (h != string::npos) data.replace(h + 7, 5, "00000");
            if (p.kind == "local" && local_felled) { if (!prefix(l.log, p.m->log)) violation("C11,C22,C23", "wrong-command", who + ": handler calls \"" + join(l.log) + "\" instead of the first of \"" + join(p.m->log) + "\""); return; }
            if (l.log != p.m->log) violation("C11,C22,C15", "wrong-command", who + ": handler calls \"" + join(l.log) + "\" instead of \"" + join(p.m->log) + "\"");
            if (l.stored != p.m->stored) violation("C13,C16,C11", "store", who + ": the commands given to the history storage differ from those entered");
            if (p.broken) return;
            if (!p.m->messy) { Screen s; s.feed(data); if (s.text() != p.m->text()) violation("C11,C22,C05", "screen", who + ": " + diff(s.text(), p.m->text())); }
            check_bcasts(ids, p.token, p.m->exited ? 0 : SIZE_MAX, !p.m->exited, who, p.kind == "bare" && !p.m->exited);
        }
    };
    auto judge = [&] {
        if (with_pair) for (auto& b : st.bcasts)
        {
            string head = "{{B" + std::to_string(b.id) + ":"; int n = 0; for (size_t i = 0; (i = common.b.s.find(head, i)) != string::npos; i += head.size()) n++;
            if (n != b.pair) violation("C15", n < b.pair ? "broadcast-lost" : "broadcast-stray", "shared output " + std::to_string(b.id) + " arrived " + std::to_string(n) + " times on a stream used by " + std::to_string(b.pair) + " live sessions");
        }
        for (auto& p : st.parts) check_part(*p);
        // sessions nobody saw: of clients that went away; what they executed is a part of what some such client typed
        for (auto& l : st.live) if (l.second.kind == "remote" && l.second.part < 0)
        {
            bool ok = false; for (auto& p : st.parts) if (p->kind == "remote" && p->connected && p->cl.gone() && !p->token && (!p->modelled || prefix(l.second.log, p->m->log))) ok = true;
            if (!ok && !(l.second.aborted && l.second.log.empty())) violation("C11,C12", "unknown-session", "a session no client asked for executed \"" + join(l.second.log) + "\"");
        }
        // sockets: only those of clients still connected, the listeners and the scheduler's own
        size_t want = loop_fds, have = open_fds().size(); for (auto& g : st.gens) if (g.up) want++;
        for (auto& p : st.parts) if (p->kind == "remote" && p->connected && p->cl.accepted() && !p->cl.gone() && !p->cl.peer_closed()) want++;
        if (local) { bool dead = st.live[local_token].dead; (void)dead; want += 2; }
        if (have > want) violation("C12,C13,C23", "socket-left", std::to_string(have - want) + " descriptors stay open after their sessions ended");
        if (have < want) violation("C12,C23", "socket-lost", "descriptors of live sessions were closed");
        if (bad_closes()) violation("C12,C23", "double-close", "a descriptor was closed twice");
    };
    judge(); if (!st.early.empty()) violation("C13,C16", "store", "commands were given to the history storage although no session exited");
    // ---- the end: stop with connections open, sometimes with input pending
    if (chance(W, 0.4)) for (auto p : remote) if (p->connected && !p->cl.gone() && !p->fin && !p->cl.peer_closed() && p->modelled && !p->m->exited) { p->cl.send("echo never\r\n"); }
    bool posted = choose(W, 2);
    spawn_app("stopper", [&, posted] { if (posted) { sched->Post([&] { sched->Stop(); NoPreempt np; st.stop_returned = true; }); } else { sched->Stop(); NoPreempt np; st.stop_returned = true; } });
    if (!block_until("end", [&] { return st.ended; }, 10000000)) violation("C12,C23,C02", "no-end", "the program does not end after Stop");
    wait_idle();
    if (open_fds().size() != base_fds) violation("C23,C12", "fd-leak", std::to_string(open_fds().size()) + " descriptors are open after the program ended, " + std::to_string(base_fds) + " before it began");
    if (bad_closes()) violation("C12,C23", "double-close", "a descriptor was closed twice");
    if (live_lib_threads()) violation("C12,C23", "thread-left", "a thread is left after the program ended");
    stat_add("clients", remote.size()); stat_add("broadcasts", st.bcasts.size()); uint64_t hc = 0; for (auto& l : st.live) hc += l.second.log.size(); stat_add("handler_calls", hc); stat_add("sessions", st.live.size());
}
void world() { scenario(0); }
Reg r1("telnet-" FLAV, world);
} // namespace
