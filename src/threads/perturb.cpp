// Linked into the real gateway (not instrumented itself): delays around every lock, semaphore and socket call, stand-ins
// for multicast, System V shared memory and named semaphores, and a record of the interleavings that happened.
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <string>
static std::atomic<int> threads{0}; static std::atomic<uint32_t> trail{0};
static std::atomic<long> locks{0}, posts{0}, waits{0}, received{0}, sent{0}, datagrams{0}, multicasts{0}, handovers{0}; static std::atomic<int> lastThread{-1};
static std::atomic<uint8_t> seen[1 << 16];
static thread_local int me = -1; static thread_local uint64_t rs = 0;
static int rate() { static int r = -1; if (r < 0) { const char* e = getenv("VERIF_DELAY"); r = e ? atoi(e) : 0; } return r; } // per mille
static void step(const void* place) {
    if (me < 0) { me = threads++; const char* e = getenv("VERIF_SEED"); rs = ((e ? strtoull(e, 0, 10) : 1) + (uint64_t)me * 77) * 0x9E3779B97F4A7C15ull | 1; }
    // the last three (thread, place) pairs: one short interleaving
    uint32_t off = (uint32_t)((uintptr_t)place - (uintptr_t)&step), t = trail.load(std::memory_order_relaxed); t = (t << 10) | ((off * 2654435761u >> 25) & 0x7f) | ((uint32_t)(me & 7) << 7); trail.store(t, std::memory_order_relaxed);
    uint32_t h = (t & 0x3fffffff) * 2654435761u >> 16; seen[h].store(1, std::memory_order_relaxed);
    if (lastThread.exchange(me, std::memory_order_relaxed) != me) handovers.fetch_add(1, std::memory_order_relaxed);
    int r = rate(); if (!r) return;
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; unsigned k = rs % 1000; int err = errno;
    if (k < (unsigned)r) { uint64_t u = rs >> 20; struct timespec d = {0, (long)((u & 15) == 0 ? u >> 8 & 0x7fffff : u >> 8 & 0x1ffff)}; nanosleep(&d, nullptr); } else if (k < (unsigned)r * 3) sched_yield();
    errno = err;
}
// All threads write to the log all the time: its lock orders nearly everything they do, and the race detector sees only what is
// not ordered. Without the log (VERIF_QUIET) the other accesses have to be ordered by locks of their own.
extern "C" { char verif_quiet = 0; }
#if defined(__x86_64__)
#define PUTLOG "_ZN8MQTTSNGW7Process6putLogEPKcz"
__asm__(".text\n.weak __real_" PUTLOG "\n.globl __wrap_" PUTLOG "\n.type __wrap_" PUTLOG ",@function\n__wrap_" PUTLOG ":\n cmpb $0, verif_quiet(%rip)\n jne 1f\n jmp *__real_" PUTLOG "@GOTPCREL(%rip)\n1: ret\n");
#endif
static struct Quiet { Quiet() { const char* e = getenv("VERIF_QUIET"); verif_quiet = e && *e == '1'; } } quiet;
#define STEP step(__builtin_return_address(0))
static struct Out { ~Out() {
    const char* e = getenv("VERIF_OUT"); FILE* f = e ? fopen(e, "w") : nullptr; if (!f) return;
    fprintf(f, "locks %ld\nsemaphore_posts %ld\nsemaphore_waits %ld\nstream_receives %ld\nstream_sends %ld\ndatagrams_sent %ld\nmulticasts %ld\nhandovers %ld\nthreads %d\nseen ", locks.load(), posts.load(), waits.load(), received.load(), sent.load(), datagrams.load(), multicasts.load(), handovers.load(), threads.load());
    for (int i = 0; i < 1 << 16; i++) if (seen[i]) fprintf(f, "%x ", i); fprintf(f, "\n"); fclose(f); } } out __attribute__((init_priority(101)));
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_sem_post(sem_t*); int __real_sem_wait(sem_t*); int __real_sem_timedwait(sem_t*, const struct timespec*);
ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*); ssize_t __real_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t); int __real_setsockopt(int, int, int, const void*, socklen_t); int __real_close(int);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { STEP; int r = __real_pthread_mutex_lock(m); locks.fetch_add(1, std::memory_order_relaxed); STEP; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); STEP; return r; }
int __wrap_sem_post(sem_t* s) { STEP; int r = __real_sem_post(s); posts.fetch_add(1, std::memory_order_relaxed); STEP; return r; }
int __wrap_sem_wait(sem_t* s) { STEP; int r = __real_sem_wait(s); waits.fetch_add(1, std::memory_order_relaxed); STEP; return r; }
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) { STEP; int r = __real_sem_timedwait(s, t); waits.fetch_add(1, std::memory_order_relaxed); STEP; return r; }
ssize_t __wrap_recv(int s, void* b, size_t n, int f) { STEP; ssize_t r = __real_recv(s, b, n, f); received.fetch_add(1, std::memory_order_relaxed); STEP; return r; }
ssize_t __wrap_send(int s, const void* b, size_t n, int f) { STEP; ssize_t r = __real_send(s, b, n, f); sent.fetch_add(1, std::memory_order_relaxed); STEP; return r; }
int __wrap_close(int s) { STEP; int r = __real_close(s); STEP; return r; }
ssize_t __wrap_recvfrom(int s, void* b, size_t n, int f, struct sockaddr* a, socklen_t* l) { STEP; ssize_t r = __real_recvfrom(s, b, n, f, a, l); STEP; return r; }
// a sandbox may have no route for multicast
ssize_t __wrap_sendto(int s, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l) {
    STEP; if (a && a->sa_family == AF_INET && ntohl(((const struct sockaddr_in*)a)->sin_addr.s_addr) >> 28 == 14) { multicasts.fetch_add(1, std::memory_order_relaxed); return n; }
    datagrams.fetch_add(1, std::memory_order_relaxed); ssize_t r = __real_sendto(s, b, n, f, a, l); STEP; return r; }
int __wrap_setsockopt(int s, int l, int o, const void* v, socklen_t n) { if (l == IPPROTO_IP && (o == IP_ADD_MEMBERSHIP || o == IP_DROP_MEMBERSHIP || o == IP_MULTICAST_TTL || o == IP_MULTICAST_LOOP)) return 0;
    static const bool small = getenv("VERIF_SMALL"); int t = 0, k = 2048; socklen_t tl = sizeof t; // a broker that does not read is noticed soon
    if (small && o == SO_REUSEADDR && !getsockopt(s, SOL_SOCKET, SO_TYPE, &t, &tl) && t == SOCK_STREAM) __real_setsockopt(s, SOL_SOCKET, SO_SNDBUF, &k, sizeof k);
    return __real_setsockopt(s, l, o, v, n); }
// one process only: named objects are private
struct Seg { void* p; size_t n; }; static std::map<int, Seg>* segs; static std::map<std::string, sem_t*>* sems; static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
int __wrap_shmget(int key, size_t n, int flg) {
    __real_pthread_mutex_lock(&mx); if (!segs) segs = new std::map<int, Seg>; int r = key & 0x3fffffff; if (!r) r = 1;
    if (segs->count(r)) { if (flg & 02000) { errno = EEXIST; r = -1; } } else if (!(flg & 01000)) { errno = ENOENT; r = -1; } else (*segs)[r] = {calloc(1, n), n};
    __real_pthread_mutex_unlock(&mx); return r; }
void* __wrap_shmat(int id, const void*, int) { __real_pthread_mutex_lock(&mx); void* p = segs && segs->count(id) ? (*segs)[id].p : (void*)-1; __real_pthread_mutex_unlock(&mx); return p; }
int __wrap_shmdt(const void*) { return 0; }
int __wrap_shmctl(int, int, void* b) { if (b) memset(b, 0, 8); return 0; }
sem_t* __wrap_sem_open(const char* n, int, unsigned, unsigned v) { __real_pthread_mutex_lock(&mx); if (!sems) sems = new std::map<std::string, sem_t*>; sem_t*& s = (*sems)[n]; if (!s) { s = (sem_t*)calloc(1, sizeof(sem_t)); sem_init(s, 0, v); } sem_t* r = s; __real_pthread_mutex_unlock(&mx); return r; }
int __wrap_sem_close(sem_t*) { return 0; } int __wrap_sem_unlink(const char*) { return 0; }
const char* __tsan_default_options() { return "halt_on_error=0:history_size=4:second_deadlock_stack=1:detect_deadlocks=1:report_signal_unsafe=0:exitcode=0"; }
// OpenSSL is not instrumented: what it does with atomics is not seen, nor what it reads and writes itself
const char* __tsan_default_suppressions() { return "called_from_lib:libssl\ncalled_from_lib:libcrypto\n"; }
}
