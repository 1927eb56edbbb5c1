// Worker process: runs seeds in forked children, gates and minimises violations, replays files.
#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <set>
#include <unordered_set>
#include <algorithm>

using namespace sim;
using namespace sim::detail;

extern "C" __attribute__((weak, visibility("default"), used)) const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:symbolize=0:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:use_sigaltstack=1:malloc_context_size=12:quarantine_size_mb=16:thread_local_quarantine_size_kb=64"; }
extern "C" __attribute__((weak, visibility("default"), used)) const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=99"; }

static int g_errfd = -1; static std::string g_world = "", g_prop = "ALL"; static void (*g_fn)() = nullptr;
static double mono() { timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts); return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec; }
static std::string g_stderr;

static void read_stderr()
{
    off_t n = lseek(g_errfd, 0, SEEK_END); g_stderr.assign((size_t)std::min<off_t>(n, 60000), 0);
    ssize_t r = pread(g_errfd, &g_stderr[0], g_stderr.size(), 0); (void)r;
}
static std::string line_with(const std::string& s, const char* k)
{
    size_t p = s.find(k); if (p == std::string::npos) return "";
    size_t b = s.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t e = s.find('\n', p); return s.substr(b, e - b);
}
// one run in a forked child; the result is in R
static void run_child(uint64_t seed, bool replay, const std::vector<uint32_t>* in, bool verbose)
{
    size_t hdr = offsetof(Result, ch); memset((void*)R, 0, hdr);
    if (ftruncate(g_errfd, 0)) {}
    lseek(g_errfd, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid == 0)
    {
        rlimit rl{ 20, 25 }; setrlimit(RLIMIT_CPU, &rl); rlimit c0{ 0, 0 }; setrlimit(RLIMIT_CORE, &c0);
        int nul = open("/dev/null", O_RDWR); raw_syscall(SYS_dup2, nul, 0); raw_syscall(SYS_dup2, nul, 1); raw_syscall(SYS_dup2, g_errfd, 2);
        start_run(seed, g_prop.c_str(), replay, in, verbose, g_fn);
        _exit(77);
    }
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); int st = 0; bool timeout = false; double t0 = mono();
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break;
        timespec ts{ 1, 0 }; sigtimedwait(&ss, nullptr, &ts);
        if (mono() - t0 > 120) { timeout = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    }
    if (R->status != 0) return;
    read_stderr();
    if (timeout) { R->status = 4; strcpy(R->kind, "wall-timeout"); strcpy(R->msg, "the run did not end in 120 s of wall time"); return; }
    R->status = 2; strcpy(R->tags, "*");
    std::string kind, msg;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99)
    {
        std::string l = line_with(g_stderr, "ERROR: AddressSanitizer"); size_t p = l.find("Sanitizer: ");
        if (p != std::string::npos) { std::string k = l.substr(p + 11); kind = "asan:" + k.substr(0, k.find(' ')); msg = l; }
        else { l = line_with(g_stderr, "runtime error:"); p = l.find("runtime error: "); kind = "ubsan"; if (p != std::string::npos) kind += ":" + l.substr(p + 15, 30); msg = l; }
        if (verbose || getenv("SIM_FULL")) msg = g_stderr.substr(0, 4000);
    }
    else if (WIFSIGNALED(st))
    {
        int sg = WTERMSIG(st); kind = sg == SIGXCPU || sg == SIGKILL ? "cpu-limit" : std::string("signal:") + strsignal(sg);
        std::string l = line_with(g_stderr, "Assertion"); if (!l.empty()) { kind = "assert"; msg = l; }
        else { l = line_with(g_stderr, "terminate called"); if (!l.empty()) { kind = "terminate"; msg = l + " " + line_with(g_stderr, "what():"); } else msg = g_stderr.substr(0, 1500); }
    }
    else { kind = "exit:" + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1); msg = "the program ended itself; " + g_stderr.substr(0, 1500); }
    strncpy(R->kind, kind.c_str(), 127); strncpy(R->msg, msg.c_str(), 4095);
}
struct Sig { uint32_t status; std::string tags, kind; uint64_t hash; uint32_t n[3]; bool operator==(const Sig& o) const { return status == o.status && tags == o.tags && kind == o.kind && hash == o.hash && n[0] == o.n[0] && n[1] == o.n[1] && n[2] == o.n[2]; } };
static Sig sig() { return Sig{ R->status, R->tags, R->kind, R->hash, { R->n[0], R->n[1], R->n[2] } }; }
using Choices = std::vector<uint32_t>[3];
static void grab(std::vector<uint32_t>* c) { for (int i = 0; i < 3; ++i) c[i].assign(R->ch[i], R->ch[i] + R->n[i]); }
static void trim(std::vector<uint32_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); }

static int shrink(std::vector<uint32_t>* best, const std::string& tags, const std::string& kind, double budget)
{
    double t0 = mono(); int tries = 0;
    auto attempt = [&](std::vector<uint32_t>* c) {
        ++tries; run_child(0, true, c, false);
        if (R->status == 2 && kind == R->kind && tags == R->tags) { grab(best); for (int i = 0; i < 3; ++i) trim(best[i]); return true; }
        return false;
    };
    for (int i = 0; i < 3; ++i) trim(best[i]);
    bool progress = true;
    while (progress && mono() - t0 < budget)
    {
        progress = false;
        for (int s : { 2, 1, 0 })
        {
            // zero blocks, then delete blocks
            for (int mode = 0; mode < 2; ++mode)
                for (size_t len = std::max<size_t>(1, best[s].size()); len >= 1; len /= 2)
                {
                    for (size_t p = 0; p < best[s].size() && mono() - t0 < budget;)
                    {
                        size_t e = std::min(best[s].size(), p + len); bool any = mode == 1;
                        Choices c; for (int i = 0; i < 3; ++i) c[i] = best[i];
                        if (mode == 0) for (size_t k = p; k < e; ++k) { if (c[s][k]) any = true; c[s][k] = 0; }
                        else c[s].erase(c[s].begin() + (long)p, c[s].begin() + (long)e);
                        size_t before = 0, after = 0; for (int i = 0; i < 3; ++i) { before += best[i].size(); for (auto x : best[i]) before += x != 0; }
                        if (any && attempt(c))
                        {
                            for (int i = 0; i < 3; ++i) { after += best[i].size(); for (auto x : best[i]) after += x != 0; }
                            if (after < before) { progress = true; if (mode == 0) p = e; continue; }
                        }
                        p = e;
                    }
                    if (len == 1) break;
                }
        }
        // smaller values in the workload
        for (size_t k = 0; k < best[0].size() && mono() - t0 < budget; ++k)
            while (best[0].size() > k && best[0][k] > 1)
            {
                Choices c; for (int i = 0; i < 3; ++i) c[i] = best[i];
                uint32_t old = c[0][k]; c[0][k] /= 2;
                if (!attempt(c) || !(k < best[0].size()) || best[0][k] >= old) break;
                progress = true;
            }
    }
    return tries;
}
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
static void write_replay(const char* path, uint64_t seed, std::vector<uint32_t>* c, int tries)
{
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
    fprintf(f, "{\n \"world\": \"%s\", \"property\": \"%s\", \"seed\": %llu,\n \"tags\": \"%s\", \"kind\": \"%s\",\n \"message\": \"%s\",\n \"shrink_tries\": %d,\n \"note\": \"choices per stream: 0 = simplest; past the end = 0\",\n",
        g_world.c_str(), g_prop.c_str(), (unsigned long long)seed, R->tags, esc(R->kind).c_str(), esc(R->msg).c_str(), tries);
    const char* nm[3] = { "workload", "schedule", "fault" };
    for (int i = 0; i < 3; ++i) { fprintf(f, " \"%s\": [", nm[i]); for (size_t k = 0; k < c[i].size(); ++k) fprintf(f, "%s%u", k ? "," : "", c[i][k]); fprintf(f, "],\n"); }
    fprintf(f, " \"narrative\": [\n"); std::string n(R->narr, R->narr_len); size_t p = 0; bool first = true;
    while (p < n.size()) { size_t e = n.find('\n', p); fprintf(f, "%s  \"%s\"", first ? "" : ",\n", esc(n.substr(p, e - p)).c_str()); first = false; p = e + 1; }
    fprintf(f, "\n ]\n}\n"); fclose(f);
}
static bool read_replay(const char* path, std::vector<uint32_t>* c, std::string& world, std::string& prop, std::string& kind)
{
    FILE* f = fopen(path, "r"); if (!f) return false; std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f);
    auto str = [&](const char* key) { size_t p = s.find(std::string("\"") + key + "\": \""); if (p == std::string::npos) return std::string(); p += strlen(key) + 5; return s.substr(p, s.find('"', p) - p); };
    world = str("world"); prop = str("property"); kind = str("kind");
    const char* nm[3] = { "workload", "schedule", "fault" };
    for (int i = 0; i < 3; ++i)
    {
        size_t p = s.find(std::string("\"") + nm[i] + "\": ["); if (p == std::string::npos) return false; p = s.find('[', p) + 1;
        while (s[p] != ']') { c[i].push_back((uint32_t)strtoul(&s[p], nullptr, 10)); while (s[p] != ',' && s[p] != ']') ++p; if (s[p] == ',') ++p; }
    }
    return true;
}

int main(int argc, char** argv)
{
    if (!getenv("SIM_NOREEXEC")) // no address randomisation: identical addresses in every process
    {
        int p = personality(0xffffffff);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE)) { setenv("SIM_NOREEXEC", "1", 1); if (personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
    }
    std::string mode = "batch", out = ".", replay; uint64_t seed0 = 1, count = 100, stride = 1; double tlimit = 1e9, shrink_budget = 20; int cpu = -1, selfcheck = 0; bool keep_going = false, dump = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto v = [&] { return std::string(argv[++i]); };
        if (a == "--world") g_world = v(); else if (a == "--prop") g_prop = v(); else if (a == "--seed0") seed0 = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--count") count = strtoull(v().c_str(), nullptr, 10); else if (a == "--stride") stride = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--time") tlimit = atof(v().c_str()); else if (a == "--out") out = v(); else if (a == "--replay") { mode = "replay"; replay = v(); }
        else if (a == "--cpu") cpu = atoi(v().c_str()); else if (a == "--selfcheck") selfcheck = atoi(v().c_str()); else if (a == "--keep-going") keep_going = true;
        else if (a == "--shrink") shrink_budget = atof(v().c_str()); else if (a == "--dump") dump = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    Choices rin; std::string rkind;
    if (mode == "replay") { std::string w, p; if (!read_replay(replay.c_str(), rin, w, p, rkind)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; } if (g_world.empty()) g_world = w; if (g_prop == "ALL") g_prop = p; }
    auto it = worlds().find(g_world); if (it == worlds().end()) { fprintf(stderr, "no world %s\n", g_world.c_str()); return 2; }
    g_fn = it->second;
    if (cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_errfd = (int)raw_syscall(SYS_memfd_create, (long)"err", 0);
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);
    auto show = [&] {
        printf("status=%u tags=%s kind=%s\nmsg=%s\nhash=%llx steps=%llu sim_ms=%llu switches=%llu blocks=%llu choices=%u/%u/%u\n", R->status, R->tags, R->kind, R->msg, (unsigned long long)R->hash, (unsigned long long)R->steps,
            (unsigned long long)(R->sim_ns / 1000000), (unsigned long long)R->switches, (unsigned long long)R->blocks, R->n[0], R->n[1], R->n[2]);
        fwrite(R->narr, 1, R->narr_len, stdout);
        read_stderr(); if (!g_stderr.empty()) printf("--- stderr\n%s\n", g_stderr.c_str());
    };
    if (mode == "replay")
    {
        run_child(0, true, rin, true); Sig a = sig(); show();
        run_child(0, true, rin, true); Sig b = sig();
        if (!(a == b)) { printf("REPLAY-NOT-DETERMINISTIC\n"); return 3; }
        if (a.status == 2) { printf("REPRODUCED kind=%s\n", a.kind.c_str()); return 1; }
        printf("NOT-REPRODUCED status=%u\n", a.status); return 0;
    }
    std::unordered_set<uint64_t> hashes; uint64_t runs = 0, ok = 0, lim = 0, other = 0, steps_ = 0, simns = 0, sw = 0, blk = 0, nontriv = 0; uint64_t fl[F_N] = {}, flruns[F_N] = {};
    std::map<std::string, uint64_t> pr, stt; std::map<std::string, uint64_t> otherk; std::vector<uint8_t> pairs(sizeof(R->opair)); std::string sample; double t0 = mono(); int rc = 0, checked = 0;
    uint64_t viol = 0;
    for (uint64_t k = 0; k < count; ++k)
    {
        if (mono() - t0 > tlimit) break;
        uint64_t seed = seed0 + k * stride;
        run_child(seed, false, nullptr, false);
        if (dump) { show(); }
        runs++;
        if (R->status == 4) { printf("HARNESS-ERROR seed=%llu %s %s\n", (unsigned long long)seed, R->kind, R->msg); fflush(stdout); return 2; }
        Sig a = sig();
        if ((int)k < selfcheck || R->status == 2)
        {
            Choices rec; grab(rec);
            run_child(seed, false, nullptr, false); Sig b = sig();
            if (!(a == b)) { printf("NOT-DETERMINISTIC seed=%llu (%s,%s,%llx,%u,%u,%u) vs (%s,%s,%llx,%u,%u,%u)\n", (unsigned long long)seed, a.tags.c_str(), a.kind.c_str(), (unsigned long long)a.hash, a.n[0], a.n[1], a.n[2], b.tags.c_str(), b.kind.c_str(), (unsigned long long)b.hash, b.n[0], b.n[1], b.n[2]); fflush(stdout); return 2; }
            run_child(0, true, rec, false); Sig c = sig();
            if (!(a == c)) { printf("REPLAY-DIVERGES seed=%llu (%u,%s,%s,%llx,%u,%u,%u) vs (%u,%s,%s,%llx,%u,%u,%u)\n", (unsigned long long)seed, a.status, a.tags.c_str(), a.kind.c_str(), (unsigned long long)a.hash, a.n[0], a.n[1], a.n[2], c.status, c.tags.c_str(), c.kind.c_str(), (unsigned long long)c.hash, c.n[0], c.n[1], c.n[2]); fflush(stdout); return 2; }
            checked++;
        }
        if (R->switches > 0 && R->n[0] > 0) hashes.insert(R->hash);
        steps_ += R->steps; simns += R->sim_ns; sw += R->switches; blk += R->blocks; if (R->switches > 0 && R->n[0] > 0) nontriv++;
        for (int i = 0; i < F_N; ++i) { fl[i] += R->faults[i]; flruns[i] += R->faults[i] > 0; }
        for (uint32_t i = 0; i < R->nprobe; ++i) pr[R->probe[i].name] += R->probe[i].n;
        for (uint32_t i = 0; i < R->nstat; ++i) stt[R->stat[i].name] += R->stat[i].n;
        for (size_t i = 0; i < pairs.size(); ++i) pairs[i] |= R->opair[i];
        if (sample.empty() && R->narr_len > 200) sample = "seed " + std::to_string(seed) + ": " + std::string(R->narr, std::min<uint32_t>(R->narr_len, 900));
        if (R->status == 1) ok++; else if (R->status == 3) { lim++; if (keep_going) { printf("LIMIT seed=%llu %s\n", (unsigned long long)seed, R->kind); fflush(stdout); } }
        else if (R->status == 5) { other++; otherk[std::string(R->tags) + ":" + R->kind]++; if (keep_going) { printf("OTHER seed=%llu tags=%s kind=%s msg=%s\n", (unsigned long long)seed, R->tags, R->kind, R->msg); fflush(stdout); } }
        else if (R->status == 2)
        {
            viol++;
            std::string kind = R->kind, tags = R->tags; Choices c; grab(c);
            if (keep_going) { printf("VIOL seed=%llu tags=%s kind=%s msg=%s\n", (unsigned long long)seed, tags.c_str(), kind.c_str(), R->msg); fflush(stdout); otherk[tags + ":" + kind]++; continue; }
            int tries = shrink(c, tags, kind, shrink_budget);
            run_child(0, true, c, false);
            if (R->status != 2 || kind != R->kind) { printf("SHRINK-LOST seed=%llu kind=%s got status=%u kind=%s\n", (unsigned long long)seed, kind.c_str(), R->status, R->kind); fflush(stdout); return 2; }
            std::string path = out + "/" + g_prop + "-" + g_world + "-" + std::to_string(seed) + ".json";
            write_replay(path.c_str(), seed, c, tries);
            printf("FOUND %s\n", path.c_str()); fflush(stdout);
            rc = 1; break;
        }
    }
    std::string hp = out + "/hashes-" + g_world + "-" + std::to_string(seed0) + ".bin"; FILE* hf = fopen(hp.c_str(), "wb"); if (hf) { for (auto h : hashes) fwrite(&h, 8, 1, hf); fclose(hf); }
    int np = 0; for (auto b : pairs) np += __builtin_popcount(b);
    printf("SUMMARY {\"runs\":%llu,\"ok\":%llu,\"limit\":%llu,\"other\":%llu,\"violations\":%llu,\"steps\":%llu,\"sim_ns\":%llu,\"switches\":%llu,\"blocks\":%llu,\"nontrivial\":%llu,\"selfchecked\":%d,\"wall\":%.3f,\"hashes\":\"%s\",\"faults\":{", (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)lim, (unsigned long long)other, (unsigned long long)viol,
        (unsigned long long)steps_, (unsigned long long)simns, (unsigned long long)sw, (unsigned long long)blk, (unsigned long long)nontriv, checked, mono() - t0, hp.c_str());
    bool first = true; for (int i = 0; i < F_N; ++i) if (fl[i]) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_name[i], (unsigned long long)fl[i], (unsigned long long)flruns[i]); first = false; }
    printf("},\"probes\":{"); first = true; for (auto& x : pr) { printf("%s\"%s\":%llu", first ? "" : ",", x.first.c_str(), (unsigned long long)x.second); first = false; }
    printf("},\"stats\":{"); first = true; for (auto& x : stt) { printf("%s\"%s\":%llu", first ? "" : ",", x.first.c_str(), (unsigned long long)x.second); first = false; }
    printf("},\"otherkinds\":{"); first = true; for (auto& x : otherk) { printf("%s\"%s\":%llu", first ? "" : ",", esc(x.first).c_str(), (unsigned long long)x.second); first = false; }
    printf("},\"pairs\":\""); for (auto b : pairs) printf("%02x", b); printf("\",\"npairs\":%d,\"sample\":\"%s\"}\n", np, esc(sample).c_str());
    return rc;
}
