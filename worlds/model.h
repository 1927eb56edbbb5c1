// Reference models shared by the worlds: menu dispatch, completion, history, line editor, screen, key decoders.
// They are written from the documented behaviour and are independent of the headers under test.
#pragma once
#include "../sim/sim.h"
#include <cli/cli.h>
#include <algorithm>
#include <stdexcept>
#include <sstream>
#include <streambuf>
#include <ostream>

namespace model {
using std::string; using std::vector;
using Words = vector<string>;

// ------------------------------------------------------------ screen
struct Screen { // what a terminal shows after a byte stream; crlf: a line feed also returns the carriage (local tty)
    vector<string> rows{ "" }; size_t r = 0, c = 0; bool crlf = true; int st = 0; string bad;
    void cell(char ch) { string& l = rows[r]; if (l.size() <= c) l.resize(c + 1, ' '); l[c] = ch; ++c; }
    void feed(const string& s)
    {
        for (char ch : s)
        {
            if (st == 1) { if (ch == '[') st = 2; else { bad = "escape"; st = 0; } continue; }
            if (st == 2)
            {
                if (ch == 'H') { r = 0; c = 0; }
                else if (ch == 'J') { rows.resize(r + 1); rows[r].resize(std::min(rows[r].size(), c)); }
                else if (ch == ';' || (ch >= '0' && ch <= '9')) continue;
                else if (ch != 'm') bad = "escape"; // colours are not compared
                st = 0; continue;
            }
            switch (ch)
            {
                case 27: st = 1; break;
                case '\b': if (c) --c; else bad = "backspace at column 0"; break;
                case '\r': c = 0; break;
                case '\n': ++r; if (rows.size() <= r) rows.resize(r + 1); if (crlf) c = 0; break;
                default: cell(ch);
            }
        }
    }
    static string rtrim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
    string text() const { string s; for (auto& l : rows) s += rtrim(l) + "\n"; return s; }
};

// ------------------------------------------------------------ menu
struct Effect { string log, out; int thrown = 0; string what; };      // thrown: 0 no 1 std::exception 2 other
struct Node {
    string name, prompt, desc; bool menu = false, enabled = true, alive = true; Node* parent = nullptr; vector<std::shared_ptr<Node>> kids;
    // leaf: does it take these arguments, and what happens then
    std::function<bool(const Words& args, Effect&)> leaf;
    cli::CmdHandler handle; int tag = 0;
};
using NodeP = std::shared_ptr<Node>;
inline NodeP menu(const string& name, const string& prompt = "") { auto n = std::make_shared<Node>(); n->menu = true; n->name = name; n->prompt = prompt.empty() ? name : prompt; return n; }
inline NodeP leaf(const string& name, std::function<bool(const Words&, Effect&)> f) { auto n = std::make_shared<Node>(); n->name = name; n->leaf = std::move(f); return n; }
inline NodeP add(NodeP m, NodeP k) { k->parent = m.get(); m->kids.push_back(k); return k; }

// words are separated by blanks; quotes keep blanks and start a word of their own, a backslash escapes quotes and itself, '!' stands alone
inline Words split(const string& s)
{
    Words w; bool open = false, esc = false; char quote = 0; // open: the last word can grow
    for (char c : s)
    {
        if (esc) { if (c != '"' && c != '\'' && c != '\\') w.back() += '\\'; w.back() += c; esc = false; }
        else if (quote) { if (c == quote) { quote = 0; open = false; } else if (c == '\\') esc = true; else w.back() += c; }
        else if (c == ' ' || c == '\t') open = false;
        else if (c == '!') { w.push_back("!"); open = false; }
        else if (c == '"' || c == '\'') { quote = c; w.push_back(""); }
        else { if (!open) w.push_back(""); open = true; if (c == '\\') esc = true; else w.back() += c; }
    }
    w.erase(std::remove(w.begin(), w.end(), string()), w.end()); return w;
}
inline bool digits(const string& s, size_t from, unsigned long max, unsigned long& v)
{
    if (from >= s.size()) return false;
    v = 0;
    for (size_t i = from; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (unsigned long)(s[i] - '0'); if (v > max) return false; }
    return true;
}
inline bool number(const string& s, unsigned long& v) { return !s.empty() && digits(s, s[0] == '+', 4294967295ul, v); } // unsigned
inline bool integer(const string& s, long& v) // int
{
    if (s.empty()) return false;
    bool neg = s[0] == '-'; unsigned long u;
    if (!digits(s, neg || s[0] == '+', neg ? 2147483648ul : 2147483647ul, u)) return false;
    v = neg ? -(long)u : (long)u; return true;
}

struct Dispatch { // result of interpreting a command line in a menu
    bool found = false; Node* go = nullptr; Effect fx; Node* ran = nullptr;
};
inline bool handle(Node* n, bool viaParent, const Words& w, Dispatch& d);
inline bool exec(Node* n, const Words& w, Dispatch& d)
{
    if (!n->enabled) return false;
    if (n->menu) return handle(n, false, w, d);
    if (n->name != w[0]) return false;
    Effect fx; if (!n->leaf(Words(w.begin() + 1, w.end()), fx)) return false;
    d.found = true; d.fx = fx; d.ran = n; return true;
}
inline bool handle(Node* n, bool viaParent, const Words& w, Dispatch& d)
{
    if (!n->enabled) return false;
    if (w[0] != n->name && !(viaParent && w[0] == "..")) return false;
    if (w.size() == 1) { d.found = true; d.go = n; return true; }
    Words s(w.begin() + 1, w.end());
    for (auto& k : n->kids) if (exec(k.get(), s, d)) return true;
    return n->parent && handle(n->parent, true, s, d);
}
inline bool scan(Node* cur, const Words& w, Dispatch& d)
{
    if (!cur->enabled) return false;
    for (auto& k : cur->kids) if (exec(k.get(), w, d)) return true;
    return cur->parent && handle(cur->parent, true, w, d);
}
// ------------------------------------------------------------ help
inline string help_node(const Node* n)
{
    static const std::map<string, std::pair<const char*, const char*>> sig{ { "echo", { " <string>", "echo a word" } }, { "add", { " <int> <int>", "add" } }, { "say", { " <list of strings>", "say" } }, { "fail", { "", "fail" } }, { "faili", { "", "fail" } }, { "failc", { "", "fail" } },
        { "faild", { " <unsigned int>", "fail" } }, { "failb", { " <list of strings>", "fail" } }, { "failv", { " <list of strings>", "fail" } }, { "fails", { " <string>", "fail" } }, { "big", { " <unsigned int>", "big" } }, { "dump", { " <unsigned int>", "dump" } }, { "drip", { " <unsigned int>", "drip" } }, { "nap", { " <usec>", "nap" } }, { "bin", { " <unsigned int>", "bin" } }, { "failx", { " <unsigned int>", "fail" } }, { "fp", { " <string> <int>", "pointer" } }, { "obj", { " anything", "object" } }, { "shout", { " <unsigned int>", "special" } } };
    if (!n->enabled) return "";
    if (n->menu) return " - " + n->name + "\n\t(menu)\n";
    auto i = sig.find(n->desc);
    return i == sig.end() ? " - " + n->name + "\n\tspecial\n" : " - " + n->name + i->second.first + "\n\t" + i->second.second + "\n";
}
inline string help_text(const Node* cur)
{
    string s = "Commands available:\n - help\n\tThis help message\n - exit\n\tQuit the session\n - history\n\tShow the history\n - ! <history entry index>\n\tExec a command by index in the history\n";
    if (!cur->enabled) return s;
    for (auto& k : cur->kids) s += help_node(k.get());
    if (cur->parent) s += help_node(cur->parent);
    return s;
}
// ------------------------------------------------------------ completion
inline bool starts(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
inline string ltrim(string s) { size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; return s.substr(i); }
inline void compl_node(const Node* n, const string& line, bool parent, vector<string>& out);
inline void compl_rest(const Node* n, const string& prefix, const string& line, vector<string>& out)
{
    string rest = ltrim(line.substr(prefix.size())); vector<string> r;
    for (auto& k : n->kids) compl_node(k.get(), rest, false, r);
    if (n->parent) compl_node(n->parent, rest, true, r);
    for (auto& x : r) out.push_back(prefix + ' ' + x);
}
inline void compl_node(const Node* n, const string& line, bool parent, vector<string>& out)
{
    if (!n->enabled) return;
    if (n->menu && starts(line, n->name)) { compl_rest(n, n->name, line, out); return; }
    if (n->menu && parent && starts(line, "..")) { compl_rest(n, "..", line, out); return; }
    if (starts(n->name, line)) out.push_back(n->name);
}
inline vector<string> completions(Node* cur, string line)
{
    line = ltrim(line); vector<string> v;
    for (const char* g : { "help", "exit", "history", "!" }) if (starts(g, line)) v.push_back(g);
    if (cur->enabled) { for (auto& k : cur->kids) compl_node(k.get(), line, false, v); if (cur->parent) compl_node(cur->parent, line, true, v); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
// ------------------------------------------------------------ history
struct Hist {
    struct E { unsigned long id; string s; bool fresh; };
    size_t max; std::deque<E> e; /* oldest first */ unsigned long next = 0; bool browsing = false; size_t cur = 0; /* index in e while browsing */ size_t entered = 0;
    explicit Hist(size_t m = 100) : max(m) {}
    void push(const string& s, bool fresh) { unsigned long id = e.empty() ? next : e.back().id + 1; e.push_back(E{ id, s, fresh }); if (e.size() > max) { next = e.front().id + 1; e.pop_front(); } }
    void load(const vector<string>& v) { for (auto& s : v) push(s, false); }
    void command(const string& s)
    {
        if (browsing)
        {
            if (e.size() > 1 && e[e.size() - 2].s == s) { next = e.back().id; e.pop_back(); }
            else { e.back().s = s; entered++; }
            browsing = false;
        }
        else if (e.empty() || e.back().s != s) { push(s, true); entered++; }
    }
    void forget() { if (!e.empty()) { next = e.back().id; e.pop_back(); if (entered) --entered; } }
    bool at(unsigned long id, string& s) const { for (auto& x : e) if (x.id == id) { s = x.s; return true; } return false; }
    string up(const string& line)
    {
        if (!browsing) { push(line, true); browsing = true; cur = e.size() > 1 ? e.size() - 2 : e.size() - 1; }
        else { e[cur].s = line; if (cur) --cur; }
        return e[cur].s;
    }
    string down() { if (!browsing || cur + 1 >= e.size()) return ""; ++cur; return e[cur].s; }
    string show() const { string s = "\n"; for (auto& x : e) s += std::to_string(x.id) + "\t" + x.s + "\n"; return s + "\n"; }
    vector<string> fresh() const { size_t n = e.size() - (browsing ? 1 : 0), k = std::min(entered, n); vector<string> r; for (size_t i = n - k; i < n; ++i) r.push_back(e[i].s); return r; }
};
// ------------------------------------------------------------ session = line editor + dispatch
enum class K { ch, up, down, left, right, back, del, home, end, enter, eof, clear, none };
struct Key { K k; char c = 0; };

struct Sess {
    Node* root; Node* cur; Hist h; Screen scr; string line; size_t pos = 0; bool exited = false; int exits = 0;
    vector<string> log; vector<vector<string>> stored; bool custom_exc = false, custom_wrong = false;
    string exit_out; vector<string> exit_log{ "exit" }; // what the exit actions write and log
    std::function<void(const Dispatch&)> on_run; // side effects on shared state
    size_t promptcol = 0; string rowhead; // open row before the edited line
    vector<unsigned long> recalling;
    explicit Sess(Node* r, size_t hist = 100) : root(r), cur(r), h(hist) {}
    void print(const string& s) { for (char c : s) { if (c == '\n') { rows.push_back(rowhead); rowhead.clear(); } else rowhead += c; } }
    vector<string> rows; // committed rows
    string text() const { string s; for (auto& r : rows) s += Screen::rtrim(r) + "\n"; return s + Screen::rtrim(rowhead + line) + "\n"; }
    size_t column() const { return rowhead.size() + pos; }
    Node* at() { if (!cur->alive) cur = root; return cur; } // a removed menu leaves the session in the root menu
    void prompt() { if (!exited) print(at()->prompt + "> "); }
    void fail(const string& cmd, const string& what) { print(custom_exc ? "exc(" + cmd + "," + what + ")\n" : what + "\n"); if (custom_exc) { log.push_back("exception:" + what); if (escape && what == "it failed") escaping = true; } }
    bool escape = false, escaping = false; // the user's exception handler itself throws
    void feed(const string& cmd)
    {
        Words w = split(cmd); if (w.empty()) return;
        h.command(cmd);
        unsigned long n;
        if (w.size() == 1 && w[0] == "exit") { exits++; print(exit_out); log.insert(log.end(), exit_log.begin(), exit_log.end()); stored.push_back(h.fresh()); exited = true; return; }
        if (w.size() == 1 && w[0] == "history") { print(h.show()); return; }
        if (w.size() == 1 && w[0] == "help") { print(help_text(at())); return; }
        if (w.size() == 2 && w[0] == "!" && number(w[1], n))
        {
            h.forget(); string s;
            if (!h.at(n, s)) { fail(cmd, "Index not found in history"); return; }
            if (std::find(recalling.begin(), recalling.end(), n) != recalling.end()) { fail(cmd, "The history entry recalls itself"); return; }
            recalling.push_back(n); feed(s); recalling.pop_back();
            if (escaping) { escaping = false; fail(cmd, "escaped"); }
            return;
        }
        Dispatch d;
        if (!scan(at(), w, d)) { print(custom_wrong ? "wrong(" + cmd + ")\n" : "wrong command: " + cmd + "\n"); if (custom_wrong) log.push_back("wrong:" + cmd); return; }
        if (d.go) { cur = d.go; return; }
        if (!d.fx.log.empty()) log.push_back(d.fx.log);
        print(d.fx.out);
        if (on_run) on_run(d);
        if (d.fx.thrown == 1) fail(cmd, d.fx.what);
        else if (d.fx.thrown == 2) print("Cli. Unknown exception caught handling command line \"" + cmd + "\"\n");
    }
    void setline(const string& s) { line = s; pos = s.size(); }
    void exit_now() { exits++; log.insert(log.end(), exit_log.begin(), exit_log.end()); string tail = exit_out; // the exit output starts at the cursor
        if (pos < line.size()) overwrite(tail); else { rowhead += line; line.clear(); pos = 0; print(tail); }
        stored.push_back(h.fresh()); exited = true; }
    bool messy = false; // output was written in the middle of the edited line: the screen is not specified
    void overwrite(const string& s) { messy = true; (void)s; }
    void key(Key k)
    {
        switch (k.k)
        {
            case K::none: break;
            case K::eof: exit_now(); break;
            case K::ch:
                if (k.c == '\t')
                {
                    auto c = completions(at(), line);
                    if (c.empty()) break;
                    if (c.size() == 1) { setline(c[0] + ' '); break; }
                    string p = c[0]; for (auto& x : c) { size_t i = 0; while (i < p.size() && i < x.size() && p[i] == x[i]) ++i; p.resize(i); }
                    if (p.size() > line.size()) { setline(p); break; }
                    string l = line; rowhead += line; line.clear(); print("\n"); for (auto& x : c) print("\t" + x); print("\n"); prompt(); setline(l);
                    break;
                }
                line.insert(line.begin() + (long)pos, k.c); ++pos; break;
            case K::back: if (pos) { --pos; line.erase(pos, 1); } break;
            case K::del: if (pos < line.size()) line.erase(pos, 1); break;
            case K::left: if (pos) --pos; break;
            case K::right: if (pos < line.size()) ++pos; break;
            case K::home: pos = 0; break;
            case K::end: pos = line.size(); break;
            case K::up: setline(h.up(line)); break;
            case K::down: setline(h.down()); break;
            case K::clear: rows.clear(); rowhead.clear(); { string l = line; line.clear(); prompt(); setline(l); } break;
            case K::enter: { string l = line; rowhead += line; line.clear(); pos = 0; print("\n"); feed(l); escaping = false; prompt(); break; }
        }
    }
};
// ------------------------------------------------------------ key decoders
struct LocalKeys { // bytes as the program reads them from the terminal
    int st = 0;
    bool put(char c, Key& k)
    {
        switch (st)
        {
            case 0: switch (c) { case 4: k = { K::eof }; return true; case 127: case 8: k = { K::back }; return true; case '\n': k = { K::enter }; return true; case 12: k = { K::clear }; return true; case 27: st = 1; return false; default: k = { K::ch, c }; return true; }
            case 1: if (c == '[') { st = 2; return false; } st = 0; k = { K::none }; return true;
            case 2: st = 0; switch (c) { case 'A': k = { K::up }; return true; case 'B': k = { K::down }; return true; case 'C': k = { K::right }; return true; case 'D': k = { K::left }; return true; case 'F': k = { K::end }; return true; case 'H': k = { K::home }; return true; case '3': st = 3; return false; default: k = { K::none }; return true; }
            default: st = 0; k = { c == '~' ? K::del : K::none }; return true;
        }
    }
};
struct TelnetKeys { // a telnet client's byte stream: option negotiation and keys
    int io = 0, ks = 0; vector<std::pair<unsigned char, unsigned char>> asked; // WILL / DO requests seen
    bool put(char ch, Key& k)
    {
        unsigned char c = (unsigned char)ch;
        switch (io)
        {
            case 0: if (c == 255) { io = 1; return false; } return data(ch, k);
            case 1: if (c == 250) { io = 3; return false; } if (c >= 251 && c <= 254) { io = c; return false; } io = 0; return false;
            case 3: if (c == 255) io = 4; return false;
            case 4: io = c == 240 ? 0 : 3; return false;
            default: if (io == 251 || io == 253) asked.push_back({ (unsigned char)io, c }); io = 0; return false;
        }
    }
    bool data(char c, Key& k)
    {
        switch (ks)
        {
            case 0: switch (c) { case 4: k = { K::eof }; return true; case 127: case 8: k = { K::back }; return true; case 12: k = { K::clear }; return true; case 13: ks = 5; return false; case 27: ks = 1; return false; default: k = { K::ch, c }; return true; }
            case 1: if (c == '[') { ks = 2; return false; } ks = 0; k = { K::none }; return true;
            case 2: ks = 0; switch (c) { case 'A': k = { K::up }; return true; case 'B': k = { K::down }; return true; case 'C': k = { K::right }; return true; case 'D': k = { K::left }; return true; case 'F': k = { K::end }; return true; case 'H': k = { K::home }; return true; default: ks = 3; return false; }
            case 3: ks = 0; k = { c == '~' ? K::del : K::none }; return true;
            default: ks = 0; k = { c == 0 || c == 10 ? K::enter : K::none }; return true;
        }
    }
};
inline string key_bytes(K k, char c, bool telnet, int variant)
{
    switch (k)
    {
        case K::ch: return string(1, c); case K::up: return "\033[A"; case K::down: return "\033[B"; case K::right: return "\033[C"; case K::left: return "\033[D"; case K::end: return "\033[F"; case K::home: return "\033[H";
        case K::del: return "\033[3~"; case K::back: return variant ? string(1, 8) : string(1, 127); case K::clear: return string(1, 12); case K::eof: return string(1, 4); case K::none: { static const char* junk[] = { "\033O", "\033x", "\033[Z", "\033[3x" }; return string(junk[c & 3]) + (telnet && (c & 3) == 2 ? "q" : ""); } // incomplete or unknown escape sequences
        case K::enter: if (!telnet) return "\r"; return variant ? "\r\n" : string("\r\0", 2);
    }
    return "";
}
// ------------------------------------------------------------ captured output
struct CaptureBuf : std::streambuf {
    string s;
    std::streamsize xsputn(const char* p, std::streamsize n) override { sim::NoPreempt np; s.append(p, (size_t)n); return n; }
    int overflow(int c) override { sim::NoPreempt np; s += (char)c; return c; }
};
struct Capture : std::ostream { CaptureBuf b; Capture() : std::ostream(nullptr) { rdbuf(&b); } };

// ------------------------------------------------------------ the standard commands, model and real side
struct AppHooks {
    std::function<void(std::ostream&, const string&)> log;         // a real handler ran
    std::function<void(std::ostream&, const string& name, unsigned long)> special;  // world-specific handlers
};
inline AppHooks& hooks() { static AppHooks h; return h; }
struct DerivedCast : std::bad_cast { const char* what() const noexcept override { return "derived cast"; } };

inline void say(std::ostream& o, const string& log, const string& out) { hooks().log(o, log); o << out; }
inline void throw_kind(size_t n) { sim::count_fault(sim::F_HANDLER_THROW); switch (n % 4) { case 0: throw std::bad_cast(); case 1: throw DerivedCast(); case 2: throw std::invalid_argument("invalid"); default: throw std::out_of_range("range"); } }
inline string filler(unsigned long n) { string s; s.reserve(n); for (unsigned long i = 0; i < n; ++i) s += i % 61 == 60 || i + 1 == n ? '\n' : (char)('A' + (i * 7 + i / 61) % 26); return s; }
inline string binary(unsigned long n) { static const char b[] = { 0, 1, (char)0x80, (char)0xfe, (char)0xf0, 'x', 127 - 1, '\t', (char)0x9b, 0, 'y', (char)0xc3 }; string s; for (unsigned long i = 0; i < n; ++i) s += b[(i * 5 + i / 12) % sizeof b]; return s + "\n"; }
inline void throw_odd(unsigned long n) { sim::count_fault(sim::F_HANDLER_THROW); struct Odd { int x; }; switch (n % 4) { case 0: throw "text"; case 1: throw string("a string"); case 2: throw Odd{ 3 }; default: throw std::make_pair(1, 2.0); } }
// kinds: echo w | add a b | say ... | fail | faili | failc | faild | big n | nap n
inline NodeP std_leaf(const string& kind, const string& name)
{
    NodeP n;
    if (kind == "echo") n = leaf(name, [name](const Words& a, Effect& f) { if (a.size() != 1) return false; f.log = name + ":" + a[0]; f.out = "<" + a[0] + ">\n"; return true; });
    else if (kind == "add") n = leaf(name, [name](const Words& a, Effect& f) { long x, y; if (a.size() != 2 || !integer(a[0], x) || !integer(a[1], y)) return false; f.log = name + ":" + std::to_string(x) + "+" + std::to_string(y); f.out = std::to_string(x + y) + "\n"; return true; });
    else if (kind == "say") n = leaf(name, [name](const Words& a, Effect& f) { f.log = name; for (auto& x : a) { f.log += "," + x; f.out += x + "|"; } return true; });
    else if (kind == "fail") n = leaf(name, [name](const Words& a, Effect& f) { if (!a.empty()) return false; f.log = name; f.out = "half\n"; f.thrown = 1; f.what = "it failed"; return true; });
    else if (kind == "faili") n = leaf(name, [name](const Words& a, Effect& f) { if (!a.empty()) return false; f.log = name; f.thrown = 2; return true; });
    else if (kind == "failc") n = leaf(name, [name](const Words& a, Effect& f) { if (!a.empty()) return false; f.log = name; f.thrown = 1; f.what = "std::bad_cast"; return true; });
    else if (kind == "faild") n = leaf(name, [name](const Words& a, Effect& f) { unsigned long x; if (a.size() != 1 || !number(a[0], x)) return false; f.log = name + ":" + std::to_string(x); f.thrown = 1; f.what = "derived cast"; return true; });
    else if (kind == "failb") n = leaf(name, [name](const Words& a, Effect& f) { f.log = name + ":" + std::to_string(a.size()); f.thrown = 1; f.what = "std::bad_alloc"; return true; });
    else if (kind == "failv") n = leaf(name, [name](const Words& a, Effect& f) { static const char* what[] = { "std::bad_cast", "derived cast", "invalid", "range" }; f.log = name; for (auto& x : a) f.log += "," + x; f.thrown = 1; f.what = what[a.size() % 4]; return true; });
    else if (kind == "fails") n = leaf(name, [name](const Words& a, Effect& f) { static const char* what[] = { "std::bad_cast", "derived cast", "invalid", "range" }; if (a.size() != 1) return false; f.log = name + ":" + a[0]; f.thrown = 1; f.what = what[a[0].size() % 4]; return true; });
    else if (kind == "big") n = leaf(name, [name](const Words& a, Effect& f) { unsigned long x; if (a.size() != 1 || !number(a[0], x)) return false; f.log = name + ":" + std::to_string(x); x = std::min(x, 2000ul); for (unsigned long i = 0; i < x; ++i) f.out += "line " + std::to_string(i) + " of " + std::to_string(x) + "\n"; return true; });
    else if (kind == "dump" || kind == "drip") n = leaf(name, [name, kind](const Words& a, Effect& f) { unsigned long x; if (a.size() != 1 || !number(a[0], x)) return false; f.log = name + ":" + std::to_string(x); f.out = filler(kind == "drip" ? std::min(x, 1500ul) : std::min(x, 200000ul)); return true; });
    else if (kind == "nap") n = leaf(name, [name](const Words& a, Effect& f) { unsigned long x; if (a.size() != 1 || !number(a[0], x)) return false; f.log = name + ":" + std::to_string(x); f.out = "zzz"; return true; });
    else if (kind == "shout") n = leaf(name, [name](const Words& a, Effect& f) { unsigned long x; if (a.size() != 1 || !number(a[0], x)) return false; f.log = name + ":" + std::to_string(x); f.out = "<<>>\n"; return true; });
    else if (kind == "bin") n = leaf(name, [name](const Words& a, Effect& f) { unsigned long x; if (a.size() != 1 || !number(a[0], x)) return false; f.log = name + ":" + std::to_string(x); f.out = binary(std::min(x, 3000ul)); return true; });
    else if (kind == "failx") n = leaf(name, [name](const Words& a, Effect& f) { unsigned long x; if (a.size() != 1 || !number(a[0], x)) return false; f.log = name + ":" + std::to_string(x); f.thrown = 2; return true; });
    else if (kind == "fp") n = leaf(name, [name](const Words& a, Effect& f) { long x; if (a.size() != 2 || !integer(a[1], x)) return false; f.log = "fp:" + a[0] + "," + std::to_string(x); f.out = a[0] + "/" + std::to_string(x) + "\n"; return true; });
    else if (kind == "obj") n = leaf(name, [name](const Words& a, Effect& f) { f.log = name; for (auto& x : a) f.log += "," + x; f.out = std::to_string(a.size()) + " words\n"; return a.size() < 3; });
    else if (kind == "none") n = leaf(name, [name](const Words& a, Effect& f) { if (!a.empty()) return false; f.log = name; return true; });
    n->desc = kind;
    return n;
}
inline void fp_command(std::ostream& o, const string& w, int n) { say(o, "fp:" + w + "," + std::to_string(n), w + "/" + std::to_string(n) + "\n"); }
struct ObjCommand : cli::Command { // a command class of the application
    using cli::Command::Command;
    bool Exec(const Words& w, cli::CliSession& s) override
    {
        if (!IsEnabled() || w[0] != Name() || w.size() > 3) return false;
        string l = Name(); for (size_t i = 1; i < w.size(); ++i) l += "," + w[i];
        say(s.OutStream(), l, std::to_string(w.size() - 1) + " words\n"); return true;
    }
    void Help(std::ostream& o) const override { if (IsEnabled()) o << " - " << Name() << " anything\n\tobject\n"; }
};
inline cli::CmdHandler install_leaf(cli::Menu& m, const NodeP& n)
{
    const string name = n->name, k = n->desc;
    if (k == "echo") return m.Insert(name, [name](std::ostream& o, const string& w) { say(o, name + ":" + w, "<" + w + ">\n"); }, "echo a word");
    if (k == "add") return m.Insert(name, [name](std::ostream& o, int a, int b) { say(o, name + ":" + std::to_string(a) + "+" + std::to_string(b), std::to_string((long)a + b) + "\n"); }, "add");
    if (k == "say") return m.Insert(name, [name](std::ostream& o, const vector<string>& v) { string l = name, t; for (auto& x : v) { l += "," + x; t += x + "|"; } say(o, l, t); }, "say");
    if (k == "fail") return m.Insert(name, [name](std::ostream& o) { say(o, name, "half\n"); sim::count_fault(sim::F_HANDLER_THROW); throw std::runtime_error("it failed"); }, "fail");
    if (k == "faili") return m.Insert(name, [name](std::ostream& o) { say(o, name, ""); sim::count_fault(sim::F_HANDLER_THROW); throw 42; }, "fail");
    if (k == "failc") return m.Insert(name, [name](std::ostream& o) { say(o, name, ""); sim::count_fault(sim::F_HANDLER_THROW); throw std::bad_cast(); }, "fail");
    if (k == "faild") return m.Insert(name, [name](std::ostream& o, unsigned x) { say(o, name + ":" + std::to_string(x), ""); sim::count_fault(sim::F_HANDLER_THROW); throw DerivedCast(); }, "fail");
    if (k == "failb") return m.Insert(name, [name](std::ostream& o, const vector<string>& v) { say(o, name + ":" + std::to_string(v.size()), ""); sim::count_fault(sim::F_HANDLER_THROW); throw std::bad_alloc(); }, "fail");
    if (k == "failv") return m.Insert(name, [name](std::ostream& o, const vector<string>& v) { string l = name; for (auto& x : v) l += "," + x; say(o, l, ""); throw_kind(v.size()); }, "fail");
    if (k == "fails") return m.Insert(name, [name](std::ostream& o, const string& w) { say(o, name + ":" + w, ""); throw_kind(w.size()); }, "fail");
    if (k == "big") return m.Insert(name, [name](std::ostream& o, unsigned x) { hooks().log(o, name + ":" + std::to_string(x)); x = std::min(x, 2000u); for (unsigned i = 0; i < x; ++i) o << "line " << i << " of " << x << "\n"; }, "big");
    if (k == "dump") return m.Insert(name, [name](std::ostream& o, unsigned x) { hooks().log(o, name + ":" + std::to_string(x)); o << filler(std::min(x, 200000u)); }, "dump");
    if (k == "drip") return m.Insert(name, [name](std::ostream& o, unsigned x) { hooks().log(o, name + ":" + std::to_string(x)); uint32_t i = 0; for (char c : filler(std::min(x, 1500u))) { if (i++ % 3) o << c; else o.put(c); if (i % 50 == 0) o << std::flush; } }, "drip");
    if (k == "bin") return m.Insert(name, [name](std::ostream& o, unsigned x) { hooks().log(o, name + ":" + std::to_string(x)); string s = binary(std::min(x, 3000u)); if (x % 2) o << s; else { for (char c : s) o << c; } }, "bin");
    if (k == "failx") return m.Insert(name, [name](std::ostream& o, unsigned x) { hooks().log(o, name + ":" + std::to_string(x)); throw_odd(x); }, "fail");
    if (k == "fp") return m.Insert(name, fp_command, "pointer");
    if (k == "obj") return m.Insert(std::unique_ptr<cli::Command>(new ObjCommand(name)));
    if (k == "nap") return m.Insert(name, { "usec" }, [name](std::ostream& o, unsigned x) { hooks().log(o, name + ":" + std::to_string(x)); sim::sleep_us(std::min(x, 3000u)); o << "zzz"; }, "nap");
    if (k == "shout") return m.Insert(name, [name](std::ostream& o, unsigned x) { hooks().log(o, name + ":" + std::to_string(x)); o << "<<"; hooks().special(o, name, x); o << ">>\n"; }, "special");
    return m.Insert(name, [name](std::ostream& o) { hooks().log(o, name); if (hooks().special) hooks().special(o, name, 0); }, "special");
}
inline void install(cli::Menu& m, const NodeP& n)
{
    for (auto& k : n->kids)
    {
        if (!k->menu) { k->handle = install_leaf(m, k); continue; }
        auto sm = std::make_unique<cli::Menu>(k->name, "(menu)", k->prompt == k->name ? "" : k->prompt);
        install(*sm, k); k->handle = m.Insert(std::move(sm));
    }
}
inline NodeP std_tree()
{
    auto root = menu("cli");
    for (auto x : { "echo", "add", "say", "fail", "faili", "failc", "faild", "failb", "big", "nap" }) add(root, std_leaf(x, x));
    auto sub = add(root, menu("sub")); add(sub, std_leaf("echo", "ping")); add(sub, std_leaf("fail", "fail")); add(sub, std_leaf("say", "echo")); add(sub, std_leaf("fails", "bad"));
    auto deep = add(sub, menu("deep", "d33p")); add(deep, std_leaf("echo", "dive")); add(deep, std_leaf("failc", "crash"));
    auto set = add(root, menu("setup")); add(set, std_leaf("add", "sum")); for (auto x : { "failv", "fails", "bin", "failx", "fp", "obj" }) add(root, std_leaf(x, x));
    return root;
}
// ------------------------------------------------------------ key generators
inline string some_int()
{
    static const char* odd[] = { "-1", "-0", "+5", "-2147483648", "2147483647", "-2147483649", "2147483648", "4294967295", "-4294967295", "--3", "-", "+-3", "007", "99999999999999999999", "0x1f", "1e3" };
    return sim::choose(sim::W, 3) ? std::to_string(sim::choose(sim::W, 50)) : odd[sim::choose(sim::W, 16)];
}
struct Typist { // produces keys with a bias to meaningful lines
    Node* root; int depth = 0; bool edit = true, tabs = true, hist = true, fails = true, exitcmd = false; vector<string> specials;
    string word() { static const char* w[] = { "a", "b", "foo", "bar", "x1", "42", "7", "\xc3\xa9t", "zz" }; return w[sim::choose(sim::W, 9)]; }
    string cmdline()
    {
        using namespace sim;
        if (choose(W, 12) == 1) { static const char* odd[] = { "echo \"a b\"", "echo 'it \"is'", "echo a\\\"b", "say a\\ b", "echo back\\", "say \"open end", "# echo a", "echo a#b", "echo a;b", "say $x ~ * ?", "echo \"\"", "say a\"b\"c", "echo \\\\x", "say 'q' \"r s\" t", "// no", "echo -1", "@echo a", "add 1 2 # c" }; return odd[choose(W, 18)]; }
        vector<string> v{ "echo " + word(), "add " + some_int() + " " + some_int(), "say " + word() + " " + word(), "sub", "..", "sub ping " + word(), "ping " + word(), "deep", "dive " + word(), "sub deep dive q", ".. echo " + word(), "cli", "nope", "add 1 x", "help", "setup sum 1 2", "echo", "", "  echo  " + word() + " ", "big " + std::to_string(choose(W, 4)), "sub .. say k", "bin " + std::to_string(choose(W, 30)), "bin 13" + std::to_string(choose(W, 90)), "fp " + word() + " " + std::to_string(choose(W, 9)), "fp x y", "obj", "obj " + word() + " 2", "obj 1 2 3" };
        if (fails) for (auto x : { "fail", "faili", "failc", "faild 3", "failb", "sub fail", "sub deep crash", "crash", "failv", "failv a", "failv a b", "failv a b c", "fails abcd", "fails x", "sub bad xy", "bad xyz", "failx 0", "failx 1", "failx 2", "failx 3" }) v.push_back(x);
        if (hist) { v.push_back("history"); v.push_back("! " + std::to_string(choose(W, 6))); }
        for (auto& s : specials) { v.push_back(s); v.push_back(s); }
        return v[choose(W, (uint32_t)v.size())];
    }
    // one burst of keys, ending with Enter most of the time
    vector<Key> burst(bool enter)
    {
        using namespace sim; vector<Key> r;
        auto noise = [&] {
            if (!edit || choose(W, 6) != 1) return;
            static const K ks[] = { K::left, K::right, K::back, K::del, K::home, K::end, K::none, K::up, K::down, K::clear, K::ch, K::left };
            K k = ks[choose(W, 12)];
            if ((k == K::up || k == K::down) && !hist) k = K::left;
            if (k == K::ch) { if (tabs) r.push_back({ K::ch, '\t' }); else r.push_back({ K::ch, 'q' }); }
            else r.push_back({ k, k == K::none ? (char)choose(W, 4) : (char)0 });
        };
        uint32_t how = edit ? choose(W, 5) : 0;
        if (how == 4 && hist) { uint32_t n = range(W, 1, 4); for (uint32_t i = 0; i < n; ++i) r.push_back({ choose(W, 4) == 3 ? K::down : K::up }); }
        else
        {
            string l = cmdline(); size_t cut = l.size(); if (how == 3 && tabs) cut = choose(W, (uint32_t)l.size() + 1);
            for (size_t i = 0; i < cut; ++i) { r.push_back({ K::ch, l[i] }); noise(); }
            if (how == 3 && tabs) r.push_back({ K::ch, '\t' });
        }
        noise();
        if (enter) r.push_back({ K::enter });
        return r;
    }
};
inline string esc(const string& s)
{
    string r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r;
}
inline string diff(const string& got, const string& want)
{
    std::istringstream a(got), b(want); string x, y; int n = 0;
    for (;;) { bool p = (bool)std::getline(a, x), q = (bool)std::getline(b, y); if (!p && !q) return "(equal)"; if (p != q || x != y) return "row " + std::to_string(n) + ": shown \"" + (p ? x : "(nothing)") + "\" instead of \"" + (q ? y : "(nothing)") + "\""; ++n; }
}
} // namespace model
