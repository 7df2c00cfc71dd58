// C23: the gateway's event queue with real threads; delays are injected around every lock and semaphore call.
// Built twice, with ThreadSanitizer and with AddressSanitizer.
#include "../kit/kit.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <atomic>
#include <map>
#include <thread>
#include "MQTTSNGateway.h"
using namespace MQTTSNGW;
using kit::fail; using kit::note; using kit::count;
extern "C" const char* __tsan_default_options() { return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4"; }
static std::atomic<int> jitter{0};
static void delay() {
    int j = jitter.load(std::memory_order_relaxed); if (!j) return;
    static thread_local uint64_t s = 0; if (!s) s = (uint64_t)(uintptr_t)&s ^ (uint64_t)clock() * 0x9E3779B97F4A7C15ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    unsigned k = s % 100; if (k < (unsigned)j) { struct timespec t = {0, (long)(s >> 20 & 0xffff)}; nanosleep(&t, nullptr); } else if (k < (unsigned)j * 3) sched_yield();
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_sem_post(sem_t*); int __real_sem_wait(sem_t*); int __real_sem_timedwait(sem_t*, const struct timespec*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { delay(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); delay(); return r; }
int __wrap_sem_post(sem_t* s) { delay(); int r = __real_sem_post(s); delay(); return r; }
int __wrap_sem_wait(sem_t* s) { delay(); int r = __real_sem_wait(s); delay(); return r; }
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) { delay(); int r = __real_sem_timedwait(s, t); delay(); return r; }
}
// An event carries its number in its client pointer, which the queue never looks at.
static Client* tagOf(long n) { return (Client*)(uintptr_t)(n * 16 + 16); }
static long numOf(Event* e) { return (long)((uintptr_t)e->getClient() / 16) - 1; }
struct Rec { long num; long begin, end; }; // of a post, or of the wait that returned it
struct Consumed { std::vector<Rec> got; long timeouts = 0, badTimeout = -1, overfull = 0; };
KITPROP(eventq, "producers and a consumer on one event queue; exactly once, order, limit, wake-up, time-outs", 0) {
    int np = r.range(1, 4), per = r.range(1, 40), max = r.chance(40) ? r.range(1, 12) : 0, nc = max == 0 && r.chance(20) ? 2 : 1; bool timed = r.chance(60) || max; int slow = r.below(3); jitter = r.chance(80) ? r.range(1, 20) : 0;
    EventQue* q = new EventQue(); if (max) q->setMaxSize((uint16_t)max);
    std::atomic<long> clk{1}, posted{0}, received{0}, producing{np}; long total = (long)np * per;
    std::vector<std::vector<Rec>> pr(np); std::vector<Consumed> co(nc); std::vector<uint64_t> seeds; for (int i = 0; i < np + nc + 1; i++) seeds.push_back(r.next());
    note("%d producers of %d events, limit %d, %d consumers, %s", np, per, max, nc, timed ? "timed waits" : "waits");
    std::vector<std::thread> th;
    for (int p = 0; p < np; p++) th.emplace_back([&, p] {
        Rng x(seeds[p]);
        for (int i = 0; i < per; i++) { Event* e = new Event(); e->setClientSendEvent(tagOf((long)p * per + i), nullptr); Rec k; k.num = (long)p * per + i; k.begin = clk++; q->post(e); k.end = clk++; posted++; pr[p].push_back(k); if (x.chance(20 + 20 * slow)) { if (x.chance(50)) sched_yield(); else { struct timespec t = {0, (long)x.below(slow ? 300000 : 60000)}; nanosleep(&t, nullptr); } } }
        producing--; });
    std::atomic<long> quota{total};
    for (int c = 0; c < nc; c++) th.emplace_back([&, c] {
        Rng x(seeds[np + c]); Consumed& o = co[c];
        for (;;) {
            if (timed) {
                // events of which the post had returned before this wait began and that nobody has taken yet
                bool quiet = producing == 0; long before = posted.load(), mine = received.load(); Event* e; long b = clk++; e = q->timedwait((uint16_t)(x.chance(50) ? x.below(4) : 0)); long n = clk++;
                if (e->getEventType() == EtTimeout) { o.timeouts++; if (nc == 1 && !max && before > mine && o.badTimeout < 0) o.badTimeout = mine; delete e; if (quiet) { if (q->size() == 0) break; if (nc == 1 && o.badTimeout < 0) o.badTimeout = mine; } if (max && x.chance(20)) { int s = q->size(); if (s > max) o.overfull = s; } continue; }
                o.got.push_back({numOf(e), b, n}); received++; delete e;
            } else {
                if (quota.fetch_sub(1) <= 0) break;
                long b = clk++; Event* e = q->wait(); long n = clk++; o.got.push_back({numOf(e), b, n}); received++; delete e;
            }
            if (x.chance(15 * (2 - slow))) { struct timespec t = {0, (long)x.below(200000)}; nanosleep(&t, nullptr); }
            if (max && x.chance(30)) { int s = q->size(); if (s > max) o.overfull = s; }
        } });
    for (auto& t : th) t.join();
    jitter = 0;
    int left = q->size(); kit::evals(); if (left) fail("%d events are left after everything was taken", left);
    std::map<long, Rec> got; std::vector<Rec> post(total); for (auto& v : pr) for (auto& k : v) post[k.num] = k;
    uint64_t h = max;
    for (auto& o : co) {
        if (o.overfull) fail("the queue held %ld events, its limit is %d", o.overfull, max);
        if (o.badTimeout >= 0) fail("a timed wait reported a time-out although an event was there (after %ld events)", o.badTimeout);
        std::vector<long> last(np, -1); long latest = -1;
        for (auto& k : o.got) {
            kit::evals(); h = h * 1099511628211ull + (uint64_t)(k.num / per) + 1;
            if (k.num < 0 || k.num >= total) fail("an event came out that was never posted");
            if (got.count(k.num)) fail("event %ld came out twice", k.num);
            got[k.num] = k; int p = (int)(k.num / per); if (k.num <= last[p]) fail("events %ld and %ld of one producer came out in the wrong order", last[p], k.num); last[p] = k.num;
            if (post[k.num].begin > k.end) fail("event %ld came out before it was posted", k.num);
            if (nc == 1) { if (latest >= 0 && post[k.num].end < latest) fail("event %ld came out after one that was posted later", k.num); if (post[k.num].begin > latest) latest = post[k.num].begin; }
        }
        count("timeouts", o.timeouts); if (o.timeouts) h ^= 77;
    }
    if (!max && (long)got.size() != total) fail("%ld of %ld events came out", (long)got.size(), total);
    if (max) for (long i = 0; i < total; i++) if (!got.count(i)) { // refused: the queue must have been full at some time of the post
        long in = 0, outn = 0; for (long k = 0; k < total; k++) if (got.count(k) && post[k].begin < post[i].end) { in++; if (got[k].end < post[i].begin) outn++; }
        kit::evals(); count("refused"); if (in - outn < max) fail("event %ld was refused although at most %ld events were in the queue, its limit is %d", i, in - outn, max);
    }
    delete q; kit::distinct(h); count("events", got.size()); count(max ? "bounded_runs" : "unbounded_runs"); count(timed ? "timed_runs" : "blocking_runs");
}
KITPROP(eventqseq, "single-threaded sequences of post, timed wait and size: exact results", 0) {
    EventQue q; std::vector<long> m; int max = r.chance(60) ? r.range(1, 10) : 0; if (max) q.setMaxSize((uint16_t)max); long serial = 0; uint64_t h = max; int n = r.range(1, 40), tmo = 0;
    for (int i = 0; i < n; i++) {
        int k = r.below(10); h = h * 31 + k;
        if (k < 5) { Event* e = new Event(); e->setClientSendEvent(tagOf(serial), nullptr); q.post(e); if (!max || (int)m.size() < max) m.push_back(serial); serial++; }
        else if (k == 9) q.post(nullptr);
        else if (!m.empty() || tmo < 4) {
            Event* e = m.empty() || r.chance(50) ? q.timedwait((uint16_t)r.below(2)) : q.wait(); kit::evals();
            if (m.empty()) { tmo++; if (e->getEventType() != EtTimeout) fail("an empty queue delivered an event"); count("timeouts"); }
            else { if (e->getEventType() == EtTimeout) fail("time-out with %zu events in the queue", m.size()); if (numOf(e) != m[0]) fail("event %ld instead of %ld", numOf(e), m[0]); m.erase(m.begin()); }
            delete e;
        }
        if (q.size() != (int)m.size()) fail("size %d instead of %zu", q.size(), m.size());
    }
    kit::distinct(h);
}
