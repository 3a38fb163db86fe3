// I/O seam. The file calls that the C++ library and boost make on behalf of code under test arrive
// here, because the executable's definitions come before those of the C library. Files are real
// files in the run's scratch directory; the simulator decides what each call does to them: short
// and interrupted transfers, errors of open, read, write, seek and close, a full disk, a crash of
// the process (nothing after that point reaches the disk), and acts of other processes in between.
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim { namespace io { namespace {
const int MAXFD = 256;
struct File { bool used, write, dropped, wrote; };
File files[MAXFD];
size_t nopen; uint64_t nops; bool hit; bool benign;
uint32_t nth[KINDS]; uint64_t budget = ~0ull; bool full;
uint32_t crash_at; bool dead; uint32_t foreign_at; void (*foreign_fn)(void*); void* foreign_arg;
char const* const names[] = {"fault:open_error", "fault:read_error", "fault:write_error", "fault:seek_error", "fault:close_error"};

bool mine(int fd) { return fd >= 0 && fd < MAXFD && files[fd].used && alloc::in_target(); }
/// one I/O operation begins: others may act before it
void begin() { ++nops; if (foreign_at && --foreign_at == 0) { alloc::Host h; count("fault:foreign_act"); foreign_fn(foreign_arg); } }
bool strikes(Kind k) { if (nth[k] && --nth[k] == 0) { hit = true; count(names[k]); return true; } return false; }
/// the crash is counted over operations that change the disk
bool crash_now() { if (dead) return false; if (crash_at && --crash_at == 0) { dead = true; hit = true; count("fault:crash"); return true; } return false; }
void enter(int fd, bool w, bool dropped) { if (fd >= 0 && fd < MAXFD) { files[fd] = File{true, w, dropped, false}; ++nopen; } }
void leave(int fd) { if (fd >= 0 && fd < MAXFD && files[fd].used) { files[fd].used = false; --nopen; } }
}

void reset() { benign = hit = dead = full = false; nops = 0; budget = ~0ull; crash_at = foreign_at = 0; for (auto& n : nth) n = 0; }
void shorten(bool on) { benign = on; }
void fail_nth(Kind k, uint32_t n) { nth[k] = n; }
void disk_space(uint64_t bytes) { budget = bytes; }
void crash(uint32_t n) { crash_at = n; }
bool crashed() { return dead; }
void foreign(uint32_t n, void (*fn)(void*), void* arg) { foreign_at = n; foreign_fn = fn; foreign_arg = arg; }
bool fired() { return hit; }
uint64_t ops() { return nops; }
size_t handles() { return nopen; }
}} // namespace sim::io

using namespace sim; using namespace sim::io;

namespace {
FILE* real_fopen(char const* p, char const* m) { static auto f = reinterpret_cast<FILE* (*)(char const*, char const*)>(dlsym(RTLD_NEXT, "fopen64")); return f(p, m); }
int real_fclose(FILE* s) { static auto f = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose")); return f(s); }
bool device(char const* p) { return !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6) || !strncmp(p, "/usr/", 5) || !strncmp(p, "/etc/", 5) || !strncmp(p, "/lib", 4) || !strncmp(p, "/sys/", 5); }

FILE* sim_fopen(char const* p, char const* m)
{
    if (!alloc::in_target() || device(p)) return real_fopen(p, m);
    alloc::Host h; begin();
    bool w = strpbrk(m, "wa+");
    if (strikes(OPEN)) { static const int e[] = {EACCES, EMFILE, ENOENT, EIO}; errno = e[draw(FAULTS, 4)]; return nullptr; }
    if (w && dead) { FILE* f = real_fopen("/dev/null", "r+"); if (f) enter(fileno(f), true, true); return f; }
    if (w && full && !strchr(m, 'r') && access(p, F_OK)) { errno = ENOSPC; return nullptr; }
    FILE* f = real_fopen(p, m); int err = errno;
    if (f) enter(fileno(f), w, false);
    if (w) crash_now(); // the file exists, empty; nothing later reaches it
    errno = err; return f;
}
int sim_open(char const* p, int flags, mode_t mode, int dir = AT_FDCWD)
{
    if (!alloc::in_target() || device(p)) return int(syscall(SYS_openat, dir, p, flags, mode));
    alloc::Host h; begin();
    bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (strikes(OPEN)) { static const int e[] = {EACCES, EMFILE, ENOENT, EIO}; errno = e[draw(FAULTS, 4)]; return -1; }
    if (w && dead) { int fd = int(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0)); enter(fd, true, true); return fd; }
    int fd = int(syscall(SYS_openat, dir, p, flags, mode)); int err = errno;
    if (fd >= 0) enter(fd, w, false);
    if (w) crash_now();
    errno = err; return fd;
}
/// -2: do it; otherwise the result
ssize_t write_gate(int fd, size_t& n)
{
    alloc::Host h; begin();
    if (dead) return ssize_t(n);
    if (crash_now()) { size_t part = n ? draw(FAULTS, uint32_t(n < 100000 ? n : 100000)) : 0; size_t all = n; n = part; (void)all; return -3; }
    if (strikes(WRITE)) { errno = draw(FAULTS, 2) ? EDQUOT : EIO; return -1; }
    if (benign && draw(FAULTS, 4) == 3) { if (draw(FAULTS, 3) == 2) { count("fault:interrupted_write"); errno = EINTR; return -1; } if (n > 1) { n = 1 + draw(FAULTS, uint32_t(n - 1)); count("fault:short_write"); } }
    if (n > budget) { n = size_t(budget); hit = full = true; if (n == 0) { count("fault:disk_full"); errno = ENOSPC; return -1; } count("fault:short_write"); }
    (void)fd; return -2;
}
/// a failing close: what the handle wrote last did not reach the disk
void lose(int fd) { struct stat st; if (files[fd].wrote && !dead && fstat(fd, &st) == 0 && st.st_size > 0) { off_t keep = off_t(draw(FAULTS, uint32_t(st.st_size))); if (ftruncate(fd, keep)) {} } }
void spent(int fd, ssize_t r) { if (r > 0) files[fd].wrote = true; if (r > 0 && budget != ~0ull) budget -= uint64_t(r); }
}

extern "C" {
FILE* fopen(char const* p, char const* m) { return sim_fopen(p, m); }
FILE* fopen64(char const* p, char const* m) { return sim_fopen(p, m); }
int fclose(FILE* f)
{
    int fd = fileno(f);
    if (!mine(fd)) { leave(fd); return real_fclose(f); }
    alloc::Host h; begin(); bool w = files[fd].write; bool lost = strikes(CLOSE);
    if (w) crash_now();
    if (lost) lose(fd);
    leave(fd);
    int r = real_fclose(f); int err = errno;
    if (lost) { errno = EIO; return EOF; }
    errno = err; return r;
}
int close(int fd)
{
    if (!mine(fd)) { leave(fd); return int(syscall(SYS_close, fd)); }
    alloc::Host h; begin(); bool w = files[fd].write; bool lost = strikes(CLOSE);
    if (w) crash_now();
    if (lost) lose(fd);
    leave(fd);
    int r = int(syscall(SYS_close, fd));
    if (lost) { errno = EIO; return -1; }
    return r;
}
int open(char const* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = mode_t(va_arg(ap, int)); va_end(ap); return sim_open(p, flags, m); }
int open64(char const* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = mode_t(va_arg(ap, int)); va_end(ap); return sim_open(p, flags | O_LARGEFILE, m); }
int openat(int d, char const* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = mode_t(va_arg(ap, int)); va_end(ap); return sim_open(p, flags, m, d); }
ssize_t read(int fd, void* b, size_t n)
{
    if (mine(fd)) {
        alloc::Host h; begin();
        if (strikes(READ)) { errno = EIO; return -1; }
        if (benign && draw(FAULTS, 4) == 3) { if (draw(FAULTS, 3) == 2) { count("fault:interrupted_read"); errno = EINTR; return -1; } if (n > 1) { n = 1 + draw(FAULTS, uint32_t(n - 1 < 1000000 ? n - 1 : 1000000)); count("fault:short_read"); } }
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, void const* b, size_t n)
{
    if (!mine(fd) || !files[fd].write) return syscall(SYS_write, fd, b, n);
    size_t all = n; ssize_t g = write_gate(fd, n);
    if (g == -3) { syscall(SYS_write, fd, b, n); return ssize_t(all); }
    if (g != -2) return g;
    ssize_t r = syscall(SYS_write, fd, b, n); spent(fd, r); return r;
}
ssize_t writev(int fd, iovec const* v, int c)
{
    if (!mine(fd) || !files[fd].write) return syscall(SYS_writev, fd, v, c);
    size_t all = 0; for (int i = 0; i < c; ++i) all += v[i].iov_len;
    size_t n = all; ssize_t g = write_gate(fd, n);
    if (g != -2 && g != -3) return g;
    size_t done = 0; for (int i = 0; i < c && done < n; ++i) { size_t k = v[i].iov_len < n - done ? v[i].iov_len : n - done; ssize_t r = k ? syscall(SYS_write, fd, v[i].iov_base, k) : 0; if (r < 0) return done ? ssize_t(done) : -1; done += size_t(r); }
    if (g == -3) return ssize_t(all);
    spent(fd, ssize_t(done)); return ssize_t(done);
}
off_t lseek(int fd, off_t o, int w) { if (mine(fd)) { alloc::Host h; begin(); if (strikes(SEEK)) { errno = EIO; return -1; } } return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int rename(char const* a, char const* b)
{
    if (alloc::in_target() && !device(a)) { alloc::Host h; begin(); if (dead || crash_now()) return 0; if (strikes(WRITE)) { errno = EIO; return -1; } }
    return int(syscall(SYS_rename, a, b));
}
int unlink(char const* a)
{
    if (alloc::in_target() && !device(a)) { alloc::Host h; begin(); if (dead || crash_now()) return 0; }
    return int(syscall(SYS_unlink, a));
}
}
