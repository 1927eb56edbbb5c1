// Simulated file system under /simdisk/: process-kill semantics (completed writes survive), torn/failed/short I/O, full disk.
#include "io.h"
#include <unistd.h>
#include <fcntl.h>
#include <cstdarg>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <algorithm>

namespace sim {
namespace detail {
struct Inode { std::string data; };
static std::map<std::string, std::shared_ptr<Inode>> g_dir;
static size_t g_cap; static DiskStats g_st; static uint64_t g_ops, g_crash_at; static std::function<void()> g_on_crash;
static std::vector<DiskFaultRec> g_flog;
static std::map<FILE*, int> g_files;
static const char PFX[] = "/simdisk/";

struct DiskFile : Ofd {
    std::shared_ptr<Inode> ino; std::string path; size_t pos = 0; bool append = false, rdok = true, wrok = true;
    DiskFile() { kind = "disk"; }
    bool disk() override { return true; }
    bool can_poll() override { return false; }
    ssize_t rd(char* b, size_t n) override;
    ssize_t wr(const char* b, size_t n, bool) override;
};
static size_t used() { size_t u = 0; for (auto& d : g_dir) u += d.second->data.size(); return u; }
static void flog(const char* op, const std::string& p, const char* what) { g_flog.push_back({ op, p, what }); note(std::string("disk fault: ") + op + " " + p + ": " + what); }
// the program is killed at this operation: true
static bool crash_now() { ++g_ops; return g_crash_at && --g_crash_at == 0; }
[[noreturn]] static void die(const char* where, const std::string& p)
{
    note(std::string("process killed at disk operation: ") + where + " " + p); count_fault(F_CRASH);
    g_flog.push_back({ where, p, "kill" });
    auto f = g_on_crash; g_on_crash = nullptr; if (f) f();
    kill_app();
    __builtin_unreachable();
}
ssize_t DiskFile::rd(char* b, size_t n)
{
    g_st.reads++;
    if (!rdok) return -EBADF;
    if (crash_now()) die("read", path);
    if (fault(F_READ_EIO)) { flog("read", path, "EIO"); return -EIO; }
    if (fault(F_EINTR)) return -EINTR;
    size_t k = pos < ino->data.size() ? std::min(n, ino->data.size() - pos) : 0;
    if (k > 1 && fault(F_SHORT_READ)) k = 1 + choose(F, (uint32_t)k - 1);
    memcpy(b, ino->data.data() + pos, k); pos += k; g_st.bytes_read += k; return (ssize_t)k;
}
ssize_t DiskFile::wr(const char* b, size_t n, bool)
{
    g_st.writes++;
    if (!wrok) return -EBADF;
    auto put = [&](size_t k) { if (append) pos = ino->data.size(); if (ino->data.size() < pos + k) ino->data.resize(pos + k); memcpy(&ino->data[pos], b, k); pos += k; };
    if (crash_now()) { size_t k = choose(F, (uint32_t)n + 1); put(k); die("write", path); }
    if (fault(F_EINTR)) return -EINTR;
    if (n && fault(F_WRITE_EIO)) { flog("write", path, "EIO"); return -EIO; }
    size_t u = used(), room = g_cap == SIZE_MAX ? SIZE_MAX : (u < g_cap ? g_cap - u : 0);
    size_t k = n;
    if (n && (room == 0 || fault(F_WRITE_ENOSPC))) { flog("write", path, "ENOSPC"); return -ENOSPC; }
    if (k > room) { k = room; flog("write", path, "partial"); }
    if (k > 1 && fault(F_SHORT_WRITE)) k = 1 + choose(F, (uint32_t)k - 1);
    put(k); return (ssize_t)k;
}
void disk_close_failed(Ofd* o) { auto f = dynamic_cast<DiskFile*>(o); flog("close", f ? f->path : "", "EIO"); }
bool disk_path(const char* p) { return p && strncmp(p, PFX, sizeof PFX - 1) == 0; }
int disk_open(const char* path, int fl)
{
    g_st.opens++;
    if (crash_now()) die("open", path);
    if (fault(F_OPEN_FAIL)) { int e[] = { EACCES, EMFILE, EIO, ENFILE }; flog("open", path, (fl & O_ACCMODE) == O_RDONLY ? "open for reading failed" : "open for writing failed"); return -e[choose(F, 4)]; }
    auto it = g_dir.find(path);
    if (it == g_dir.end()) { if (!(fl & O_CREAT)) return -ENOENT; it = g_dir.emplace(path, std::make_shared<Inode>()).first; }
    else if ((fl & O_CREAT) && (fl & O_EXCL)) return -EEXIST;
    if (fl & O_TRUNC) it->second->data.clear();
    auto f = std::make_shared<DiskFile>(); f->ino = it->second; f->path = path; f->append = fl & O_APPEND;
    f->rdok = (fl & O_ACCMODE) != O_WRONLY; f->wrok = (fl & O_ACCMODE) != O_RDONLY; f->oflags = fl;
    return fd_new(f);
}
ssize_t disk_lseek(Ofd* o, long off, int wh)
{
    auto f = dynamic_cast<DiskFile*>(o); if (!f) return -ESPIPE;
    long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)f->pos : (long)f->ino->data.size();
    if (b + off < 0) return -EINVAL;
    f->pos = (size_t)(b + off); return (ssize_t)f->pos;
}
int disk_ftruncate(Ofd* o, long len) { auto f = dynamic_cast<DiskFile*>(o); if (!f) return -EINVAL; if (crash_now()) die("truncate", f->path); f->ino->data.resize((size_t)len); return 0; }
size_t disk_size(Ofd* o) { auto f = dynamic_cast<DiskFile*>(o); return f && f->ino->data.size() > f->pos ? f->ino->data.size() - f->pos : 0; }
void disk_reset() { g_dir.clear(); g_cap = SIZE_MAX; g_st = DiskStats(); g_ops = g_crash_at = 0; g_flog.clear(); g_files.clear(); }
} // detail
using namespace detail;
const char* disk_prefix() { return PFX; }
bool disk_exists(const std::string& p) { return g_dir.count(p) > 0; }
std::string disk_get(const std::string& p) { auto i = g_dir.find(p); return i == g_dir.end() ? std::string() : i->second->data; }
void disk_put(const std::string& p, const std::string& c) { auto& i = g_dir[p]; i = std::make_shared<Inode>(); i->data = c; }
void disk_remove(const std::string& p) { g_dir.erase(p); }
std::vector<std::string> disk_list() { std::vector<std::string> r; for (auto& d : g_dir) r.push_back(d.first); return r; }
void disk_set_capacity(size_t b) { g_cap = b; }
DiskStats disk_stats() { return g_st; }
uint64_t disk_ops() { return g_ops; }
int disk_open_count() { int n = 0; for (auto& f : fdtab) if (f && f->disk()) n++; return n; }
void disk_crash_at_op(uint64_t n, std::function<void()> f) { g_crash_at = n; g_on_crash = std::move(f); }
const std::vector<DiskFaultRec>& disk_fault_log() { return g_flog; }
void disk_clear_faults() { g_flog.clear(); }
void disk_reset_incarnation() { g_files.clear(); g_crash_at = 0; g_on_crash = nullptr; }
} // sim

using namespace sim;
using namespace sim::detail;
static int fail(int e) { errno = e; return -1; }
static long raw_ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

static ssize_t ck_read(void* c, char* b, size_t n) { return read((int)(long)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int wh) { auto f = fd_get((int)(long)c); if (!f) return -1; ssize_t r = disk_lseek(f.get(), (long)*o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return close((int)(long)c); }

static FILE* sim_fopen(const char* path, const char* mode)
{
    int fl = 0; bool plus = strchr(mode, '+') != nullptr;
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(mode, 'x')) fl |= O_EXCL;
    point(OP_OPEN); int fd; { InCore ic; fd = disk_open(path, fl); }
    if (fd < 0) { errno = -fd; return nullptr; }
    InCore ic;
    cookie_io_functions_t io{ ck_read, ck_write, ck_seek, ck_close };
    FILE* f = fopencookie((void*)(long)fd, mode, io);
    g_files[f] = fd;
    return f;
}
extern "C" {
FILE* fopen(const char* p, const char* m) { if (!active() || !disk_path(p)) return REAL(fopen)(p, m); return sim_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { if (!active() || !disk_path(p)) return REAL(fopen64)(p, m); return sim_fopen(p, m); }
int fclose(FILE* f)
{
    if (active()) { InCore ic; g_files.erase(f); }
    return REAL(fclose)(f);
}
int fileno(FILE* f) noexcept { if (active()) { auto i = g_files.find(f); if (i != g_files.end()) return i->second; } return REAL(fileno)(f); }
static int openx(const char* p, int fl, int mode)
{
    if (!active() || !disk_path(p)) return (int)raw_ret(raw_syscall(SYS_openat, AT_FDCWD, (long)p, fl, mode));
    point(OP_OPEN); InCore ic; int r = disk_open(p, fl); return r < 0 ? fail(-r) : r;
}
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return openx(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return openx(p, fl, m); }
int creat(const char* p, mode_t m) { return openx(p, O_WRONLY | O_CREAT | O_TRUNC, (int)m); }
off_t lseek(int fd, off_t o, int wh) noexcept { if (!active() || fd == 1 || fd == 2) return raw_ret(raw_syscall(SYS_lseek, fd, o, wh)); point(OP_FCNTL); InCore ic; auto f = fd_get(fd); if (!f) return fail(EBADF); ssize_t r = disk_lseek(f.get(), o, wh); return r < 0 ? fail((int)-r) : r; }
off64_t lseek64(int fd, off64_t o, int wh) noexcept { return lseek(fd, o, wh); }
int ftruncate(int fd, off_t l) noexcept { if (!active()) return (int)raw_ret(raw_syscall(SYS_ftruncate, fd, l)); point(OP_DISK); InCore ic; auto f = fd_get(fd); if (!f) return fail(EBADF); int r = disk_ftruncate(f.get(), l); return r < 0 ? fail(-r) : 0; }
int fsync(int fd) { if (!active()) return (int)raw_ret(raw_syscall(SYS_fsync, fd)); point(OP_DISK); return 0; }
int fdatasync(int fd) { if (!active()) return (int)raw_ret(raw_syscall(SYS_fdatasync, fd)); point(OP_DISK); return 0; }
int rename(const char* a, const char* b) noexcept
{
    if (!active() || !disk_path(a)) return (int)raw_ret(raw_syscall(SYS_rename, (long)a, (long)b));
    point(OP_DISK); InCore ic; g_st.renames++;
    if (crash_now()) die("rename", a);
    if (fault(F_RENAME_FAIL)) { flog("rename", a, "EACCES"); return fail(EACCES); }
    auto i = g_dir.find(a); if (i == g_dir.end()) return fail(ENOENT);
    if (strcmp(a, b)) { auto n = i->second; g_dir.erase(i); g_dir[b] = n; } return 0;
}
static int rmx(const char* p) { point(OP_DISK); InCore ic; g_st.removes++; if (crash_now()) die("unlink", p); return g_dir.erase(p) ? 0 : fail(ENOENT); }
int remove(const char* p) noexcept { if (!active() || !disk_path(p)) return REAL(remove)(p); return rmx(p); }
int unlink(const char* p) noexcept { if (!active() || !disk_path(p)) return (int)raw_ret(raw_syscall(SYS_unlink, (long)p)); return rmx(p); }
int truncate(const char* p, off_t l) noexcept { if (!active() || !disk_path(p)) return (int)raw_ret(raw_syscall(SYS_truncate, (long)p, l)); point(OP_DISK); InCore ic; auto i = g_dir.find(p); if (i == g_dir.end()) return fail(ENOENT); if (crash_now()) die("truncate", p); i->second->data.resize((size_t)l); return 0; }
int access(const char* p, int m) noexcept { if (!active() || !disk_path(p)) return (int)raw_ret(raw_syscall(SYS_access, (long)p, m)); point(OP_DISK); InCore ic; return g_dir.count(p) ? 0 : fail(ENOENT); }
static int statx_(const char* p, struct stat* s) { point(OP_DISK); InCore ic; auto i = g_dir.find(p); if (i == g_dir.end()) return fail(ENOENT); memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_nlink = 1; s->st_size = (off_t)i->second->data.size(); return 0; }
int stat(const char* p, struct stat* s) noexcept { if (!active() || !disk_path(p)) return (int)raw_ret(raw_syscall(SYS_stat, (long)p, (long)s)); return statx_(p, s); }
int lstat(const char* p, struct stat* s) noexcept { if (!active() || !disk_path(p)) return (int)raw_ret(raw_syscall(SYS_lstat, (long)p, (long)s)); return statx_(p, s); }
int fstat(int fd, struct stat* s) noexcept
{
    if (!active() || fd == 1 || fd == 2) return (int)raw_ret(raw_syscall(SYS_fstat, fd, (long)s));
    InCore ic; auto f = fd_get(fd); if (!f) return fail(EBADF); memset(s, 0, sizeof *s); s->st_mode = f->disk() ? S_IFREG | 0644 : strcmp(f->kind, "stdin") ? S_IFIFO | 0600 : S_IFCHR | 0600;
    if (auto d = dynamic_cast<DiskFile*>(f.get())) s->st_size = (off_t)d->ino->data.size();
    return 0;
}
int fstat64(int fd, struct stat64* s) noexcept { return fstat(fd, (struct stat*)s); }
int stat64(const char* p, struct stat64* s) noexcept { return stat(p, (struct stat*)s); }
}
