#pragma once
#include "core.h"
#include <sys/epoll.h>
#include <sys/types.h>
namespace sim { namespace detail {
struct Ofd;
struct EpItem { int fd; Ofd* f; uint32_t events; uint64_t data; bool pending, disabled; uint64_t seq; };
struct Ofd : std::enable_shared_from_this<Ofd> {
    const char* kind = "?"; bool nonblock = false; int refs = 0; std::vector<std::pair<struct EpollFile*, int>> watch;
    int oflags = 2;
    virtual ~Ofd() {}
    virtual uint32_t ready() { return EPOLLIN | EPOLLOUT; }
    virtual ssize_t rd(char*, size_t) { return -EINVAL; }
    virtual ssize_t wr(const char*, size_t, bool) { return -EINVAL; }
    virtual void last_close() {}
    virtual bool can_poll() { return true; }
    virtual bool eintr_ok() { return true; }
    virtual bool disk() { return false; }
    void edge();
};
int fd_new(std::shared_ptr<Ofd> f);              // lowest free number
std::shared_ptr<Ofd> fd_get(int fd);
int fd_close(int fd);                            // 0 or -errno
extern std::vector<std::shared_ptr<Ofd>> fdtab;
// disk.cpp
bool disk_path(const char* p);
int disk_open(const char* path, int flags);      // fd or -errno
ssize_t disk_lseek(Ofd*, long off, int wh);
int disk_ftruncate(Ofd*, long len);
size_t disk_size(Ofd*);
void disk_close_failed(Ofd*);
}}
