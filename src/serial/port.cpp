#include "port.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <semaphore.h>
#include <stdarg.h>
#include <string.h>
#include <sys/select.h>
#include <sys/shm.h>
#include <termios.h>
#include <unistd.h>
#include <deque>
namespace port {
static std::deque<Ev> line; static Bytes tx[2]; static bool wrote, passed;
std::function<bool(bool)> onWait; int flushMode, burst; Rng* rng; uint64_t reads, gaps, flushes, waits; static uint64_t blocked;
void reset() { line.clear(); tx[0].clear(); tx[1].clear(); wrote = false; passed = false; onWait = nullptr; flushMode = 0; burst = 1; blocked = 0; }
void rx(int p, const Bytes& b) { for (uint8_t c : b) line.push_back({p, c}); }
void gap() { line.push_back({0, GAP}); }
bool idle() { return line.empty(); }
size_t pending() { return line.size(); }
Bytes take(int p) { Bytes b; b.swap(tx[p]); return b; }
static bool mine(int fd) { return fd == FD0 || fd == FD0 + 1; }
static bool avail(int p) { int k = 0; for (auto& e : line) { if (e.v == GAP || k++ >= burst) return false; if (e.port == p) return true; } return false; }
// the pause was noticed; what follows arrives after a flush at this point
static void proceed() { if (passed && !line.empty() && line.front().v == GAP) line.pop_front(); passed = false; }
static bool timeout() { passed = true; gaps++; if (++blocked > 200000) kit::fail("the receiver waits for bytes again and again without returning"); return true; }
}
using namespace port;
extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*); int __real_poll(struct pollfd*, nfds_t, int); int __real_tcsetattr(int, int, const struct termios*); int __real_tcflush(int, int);
int __wrap_open(const char* path, int flags, ...) { if (!strncmp(path, "/dev/verif", 10)) return FD0 + (path[10] - '0'); va_list ap; va_start(ap, flags); int mode = flags & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return __real_open(path, flags, mode); }
int __wrap_close(int fd) { return mine(fd) ? 0 : __real_close(fd); }
ssize_t __wrap_read(int fd, void* buf, size_t n) {
    if (!mine(fd)) return __real_read(fd, buf, n);
    proceed(); int p = fd - FD0; size_t got = 0; int k = 0;
    for (size_t i = 0; i < line.size() && got < n && k < burst;) { if (line[i].v == GAP) break; k++; if (line[i].port == p) { ((uint8_t*)buf)[got++] = (uint8_t)line[i].v; line.erase(line.begin() + i); } else i++; }
    if (!got) { timeout(); errno = EAGAIN; return 0; } // VTIME: nothing came
    reads += got; blocked = 0; return (ssize_t)got;
}
ssize_t __wrap_write(int fd, const void* buf, size_t n) { if (!mine(fd)) return __real_write(fd, buf, n); tx[fd - FD0].insert(tx[fd - FD0].end(), (const uint8_t*)buf, (const uint8_t*)buf + n); wrote = true; return (ssize_t)n; }
int __wrap_select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    bool any = false; for (int p = 0; p < 2; p++) if (r && FD0 + p < nfds && FD_ISSET(FD0 + p, r)) any = true;
    if (!any) return __real_select(nfds, r, w, e, tv);
    proceed(); int n = 0; bool was[2]; for (int p = 0; p < 2; p++) { was[p] = FD_ISSET(FD0 + p, r); FD_CLR(FD0 + p, r); }
    for (int p = 0; p < 2; p++) if (was[p] && avail(p)) { FD_SET(FD0 + p, r); n++; }
    if (!n) timeout();
    return n;
}
int __wrap_poll(struct pollfd* f, nfds_t n, int ms) {
    bool any = false; for (nfds_t i = 0; i < n; i++) if (mine(f[i].fd)) any = true;
    if (!any) return __real_poll(f, n, ms);
    proceed(); int c = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; if (mine(f[i].fd) && (f[i].events & POLLIN) && avail(f[i].fd - FD0)) { f[i].revents = POLLIN; c++; } }
    if (!c) timeout();
    return c;
}
static void flush_() { flushes++; size_t n = 0; while (n < line.size() && line[n].v != GAP) n++; if (flushMode == 0) n = 0; else if (flushMode == 2 && n) n = rng->below(n + 1); line.erase(line.begin(), line.begin() + n); }
int __wrap_tcsetattr(int fd, int how, const struct termios* t) { if (!mine(fd)) return __real_tcsetattr(fd, how, t); if (how == TCSAFLUSH) flush_(); return 0; }
int __wrap_tcflush(int fd, int q) { if (!mine(fd)) return __real_tcflush(fd, q); if (q != TCOFLUSH) flush_(); return 0; }
int __wrap_sem_timedwait(sem_t* s, const struct timespec*) {
    if (sem_trywait(s) == 0) return 0;
    if (wrote && onWait) { wrote = false; waits++; for (bool first = true; onWait(first); first = false) if (sem_trywait(s) == 0) return 0; }
    errno = ETIMEDOUT; return -1;
}
// the gateway's process object wants a shared memory segment and a named semaphore; they stay in this process
static sem_t theSem; static char theShm[65536];
sem_t* __wrap_sem_open(const char*, int, ...) { sem_init(&theSem, 0, 0); return &theSem; }
int __wrap_sem_close(sem_t*) { return 0; }
int __wrap_sem_unlink(const char*) { return 0; }
key_t __wrap_ftok(const char*, int) { return 1; }
int __wrap_shmget(key_t, size_t, int) { return 1; }
void* __wrap_shmat(int, const void*, int) { return theShm; }
int __wrap_shmdt(const void*) { return 0; }
int __wrap_shmctl(int, int, struct shmid_ds*) { return 0; }
}
