// The gateway's log over shared memory (C32): the real Process of the gateway and the real Logmonitor, each in a process of
// its own, on stand-ins for System V shared memory and named semaphores (in a mapping both inherit, every segment between
// unmapped pages), so that nothing is left behind in the system.
#include "../kit/kit.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <getopt.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/shm.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <thread>
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWProcess.h"
#include "MQTTSNGWLogmonitor.h"
using namespace MQTTSNGW;
using kit::fail; using kit::note; using kit::count;
typedef std::string Str;
namespace {
enum { NSEG = 12, NSEM = 12, SEGROOM = 1 << 17, GUARD = 1 << 16 };
struct Seg { long long key; size_t size; bool used, removed; }; struct Sem { char name[64]; bool used, unlinked; sem_t s; };
struct Ipc { int lock; Seg seg[NSEG]; Sem sem[NSEM]; }; Ipc* ipc; char* room;
struct Lk { Lk() { while (__atomic_test_and_set(&ipc->lock, __ATOMIC_ACQUIRE)) sched_yield(); } ~Lk() { __atomic_clear(&ipc->lock, __ATOMIC_RELEASE); } };
char* base(int i) { return room + (size_t)i * (SEGROOM + 2 * GUARD) + GUARD; }
void freshIpc() {
    if (!ipc) { ipc = (Ipc*)mmap(nullptr, sizeof(Ipc), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); room = (char*)mmap(nullptr, (size_t)NSEG * (SEGROOM + 2 * GUARD), PROT_NONE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (ipc == MAP_FAILED || room == MAP_FAILED) abort(); }
    for (int i = 0; i < NSEG; i++) if (ipc->seg[i].used) { mprotect(base(i), SEGROOM, PROT_READ | PROT_WRITE); memset(base(i), 0, ipc->seg[i].size); mprotect(base(i), SEGROOM, PROT_NONE); }
    memset(ipc, 0, sizeof *ipc);
}
}
extern "C" {
int __real_sem_timedwait(sem_t*, const struct timespec*);
sem_t* __wrap_sem_open(const char* n, int fl, ...) {
    unsigned v = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); va_arg(a, int); v = va_arg(a, unsigned); va_end(a); }
    Lk l; for (auto& s : ipc->sem) if (s.used && !s.unlinked && !strcmp(s.name, n)) return &s.s;
    if (!(fl & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    for (auto& s : ipc->sem) if (!s.used) { s.used = true; snprintf(s.name, sizeof s.name, "%s", n); sem_init(&s.s, 1, v); return &s.s; }
    errno = ENOSPC; return SEM_FAILED;
}
int __wrap_sem_close(sem_t*) { return 0; }
int __wrap_sem_unlink(const char* n) { Lk l; for (auto& s : ipc->sem) if (s.used && !s.unlinked && !strcmp(s.name, n)) { s.unlinked = true; return 0; } errno = ENOENT; return -1; }
int __wrap_sem_timedwait(sem_t* s, const struct timespec*) { timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += 20000000; if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; } return __real_sem_timedwait(s, &t); }
int __wrap_shmget(key_t k, size_t n, int fl) {
    Lk l; if (k != IPC_PRIVATE) for (int i = 0; i < NSEG; i++) { Seg& s = ipc->seg[i]; if (s.used && !s.removed && s.key == k) { if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; } if (n > s.size) { errno = EINVAL; return -1; } return i + 1; } }
    if (!(fl & IPC_CREAT) && k != IPC_PRIVATE) { errno = ENOENT; return -1; }
    for (int i = 0; i < NSEG; i++) { Seg& s = ipc->seg[i]; if (!s.used) { if (n == 0 || n > SEGROOM) { errno = EINVAL; return -1; } s.used = true; s.removed = false; s.key = k; s.size = (n + 4095) & ~(size_t)4095; return i + 1; } }
    errno = ENOSPC; return -1;
}
void* __wrap_shmat(int id, const void*, int) { if (id < 1 || id > NSEG) { errno = EINVAL; return (void*)-1; } Lk l; Seg& s = ipc->seg[id - 1]; if (!s.used) { errno = EINVAL; return (void*)-1; } mprotect(base(id - 1), s.size, PROT_READ | PROT_WRITE); return base(id - 1); }
int __wrap_shmdt(const void* p) { Lk l; for (int i = 0; i < NSEG; i++) if (base(i) == p) { mprotect(base(i), ipc->seg[i].size, PROT_NONE); return 0; } errno = EINVAL; return -1; }
int __wrap_shmctl(int id, int cmd, struct shmid_ds*) { if (id < 1 || id > NSEG) { errno = EINVAL; return -1; } Lk l; if (cmd == IPC_RMID) ipc->seg[id - 1].removed = true; return 0; }
}
namespace {
struct Cmd { uint32_t op; uint32_t n; uint64_t seed; uint32_t maxLen; uint32_t thread; };
Str entry(uint64_t seed, uint32_t i, uint32_t thread, uint32_t maxLen) {
    Rng r(seed * 1000003 + i); int len = r.chance(60) ? r.range(0, std::min<int>(maxLen, 120)) : r.range(0, maxLen); if (r.chance(3)) len = 0;
    Str s = "<" + std::to_string(thread) + "." + std::to_string(seed % 1000000) + "." + std::to_string(i) + ":"; while ((int)s.size() < len) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ,;%\x1b[\t"[r.below(68)];
    return s + (r.chance(80) ? ">\n" : ">");
}
double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
Str errText(const Str& f) { FILE* p = fopen(f.c_str(), "r"); if (!p) return ""; char t[1500]; size_t n = fread(t, 1, sizeof t - 1, p); t[n] = 0; fclose(p); Str s = t; for (auto& c : s) if (c == '\n') c = '|'; return s; }
struct World {
    Str dir, cwd, mcwd, full; bool explicitConf = false; pid_t gw = 0, mon = 0; int ctl = -1, out = -1; Str O; bool shared = true; Str err;
    std::vector<char*> argv(const char* n, bool same) { static Str a, b; a = n; Str conf = !same || explicitConf ? full : ""; b = conf; std::vector<char*> v{(char*)a.c_str()}; if (!conf.empty()) { v.push_back((char*)"-f"); v.push_back((char*)b.c_str()); } v.push_back(nullptr); return v; }
    void startGw() {
        int sv[2], pp[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv); pipe(pp); fflush(stdout);
        if (!(gw = fork())) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); close(sv[0]); if (out >= 0 && shared) close(out); chdir(cwd.c_str()); int e = open((err + ".gw").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e, 2); dup2(pp[1], 1); close(pp[0]); setvbuf(stdout, nullptr, _IONBF, 0);
            try {
                auto av = argv("MQTT-SNGateway", full.substr(0, cwd.size()) == cwd); optind = 1; Process* p = new Process(); theProcess = p; p->initialize((int)av.size() - 1, av.data());
                char ok = 1; write(sv[1], &ok, 1); std::vector<std::thread> th; Cmd c;
                while (read(sv[1], &c, sizeof c) == (ssize_t)sizeof c) {
                    if (c.op == 0) break;
                    if (c.op == 3) { p->resetRingBuffer(); write(sv[1], &ok, 1); continue; }
                    auto go = [=](uint32_t thread) { for (uint32_t i = 0; i < c.n; i++) { Str s = entry(c.seed, i, thread, c.maxLen); if (s[s.size() / 2] & 1) WRITELOG("%s", s.c_str()); else WRITELOG("%s%c%s", s.substr(0, s.size() / 2).c_str(), s[s.size() / 2], s.substr(s.size() / 2 + 1).c_str()); } };
                    if (c.thread == 0) go(0); else { std::vector<std::thread> t; for (uint32_t k = 1; k <= c.thread; k++) t.emplace_back(go, k); for (auto& x : t) x.join(); }
                    write(sv[1], &ok, 1);
                }
                delete p;
            } catch (std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); _exit(3); }
            kit::flushCoverage(); _exit(0);
        }
        close(sv[1]); close(pp[1]); ctl = sv[0]; if (shared) close(pp[0]); else { out = pp[0]; fcntl(out, F_SETFL, O_NONBLOCK); }
        ack("start");
    }
    void ack(const char* what) {
        double t0 = nowS(); char ok;
        for (;;) {
            pollfd f{ctl, POLLIN, 0}; if (poll(&f, 1, 50) > 0) { if (read(ctl, &ok, 1) == 1) return; ended(gw, "the gateway", ".gw"); }
            if (!shared) pump();
            if (nowS() - t0 > 12) fail("the gateway is stuck (%s) with its log in shared memory", what);
        }
    }
    void ended(pid_t& p, const char* who, const char* ext) {
        int st = 0; for (int i = 0; i < 200; i++) { if (waitpid(p, &st, WNOHANG) == p) { p = 0; break; } usleep(10000); }
        fail("%s ended while logging (%s %d): %s", who, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), errText(err + ext).c_str());
    }
    void startMon() {
        int pp[2]; pipe(pp); fflush(stdout);
        if (!(mon = fork())) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); if (ctl >= 0) close(ctl); close(pp[0]); chdir(mcwd.c_str()); int e = open((err + ".mon").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e, 2); dup2(pp[1], 1); setvbuf(stdout, nullptr, _IONBF, 0);
            try { auto av = argv("MQTT-SNLogmonitor", full.substr(0, mcwd.size()) == mcwd); optind = 1; { Logmonitor* m = new Logmonitor(); m->initialize((int)av.size() - 1, av.data()); fprintf(stderr, "up\n"); m->run(); delete m; } }
            catch (std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); _exit(3); }
            kit::flushCoverage(); _exit(0);
        }
        close(pp[1]); if (out >= 0) close(out); out = pp[0]; fcntl(out, F_SETPIPE_SZ, 4096); fcntl(out, F_SETFL, O_NONBLOCK);
        double t0 = nowS(); while (errText(err + ".mon").empty()) { int st; if (waitpid(mon, &st, WNOHANG) == mon) { mon = 0; fail("the log monitor does not start: %s", errText(err + ".mon").c_str()); } if (nowS() - t0 > 20) fail("the log monitor is stuck at its start"); usleep(500); }
    }
    bool pump() { char t[8192]; bool any = false; for (;;) { ssize_t n = out < 0 ? -1 : read(out, t, sizeof t); if (n <= 0) break; O.append(t, n); any = true; } return any; }
    void stopMon(int sig) {
        kill(mon, sig); double t0 = nowS(); int st;
        for (;;) { pump(); if (waitpid(mon, &st, WNOHANG) == mon) break; if (nowS() - t0 > 20) { fail("the log monitor does not end on signal %d", sig); } usleep(500); }
        mon = 0; pump(); if (sig != SIGKILL && (!WIFEXITED(st) || WEXITSTATUS(st))) fail("the log monitor ended with %s %d: %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), errText(err + ".mon").c_str());
        close(out); out = -1;
    }
    void stopGw(bool kill9) { if (kill9) kill(gw, SIGKILL); else { Cmd c{0}; write(ctl, &c, sizeof c); } double t0 = nowS(); int st; for (;;) { if (!shared) pump(); if (waitpid(gw, &st, WNOHANG) == gw) break; if (nowS() - t0 > 20) fail("the gateway does not end"); usleep(300); } gw = 0; close(ctl); ctl = -1; if (!kill9 && (!WIFEXITED(st) || WEXITSTATUS(st))) fail("the gateway ended with %s %d: %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), errText(err + ".gw").c_str()); }
    void log(const Cmd& c, const char* what) { if (write(ctl, &c, sizeof c) != (ssize_t)sizeof c) ended(gw, "the gateway", ".gw"); ack(what); }
    void alive() { int st; if (mon && waitpid(mon, &st, WNOHANG) == mon) { mon = 0; fail("the log monitor ended by itself (%s %d): %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), errText(err + ".mon").c_str()); } }
    ~World() { for (pid_t p : {gw, mon}) if (p > 0) { kill(p, SIGKILL); waitpid(p, nullptr, 0); } if (ctl >= 0) close(ctl); if (out >= 0) close(out); }
};
Str show(const Str& s) { Str o; for (char c : s.substr(0, 60)) if (c >= 32 && c < 127) o += c; else { char t[8]; snprintf(t, sizeof t, "\\x%02x", (uint8_t)c); o += t; } return o; }
}
static World* cur;
KITPROP(logshared, "the gateway's log read by the log monitor: bursts, lap after lap of the ring, a monitor that is slow, stopped, interrupted, killed and started again, a gateway started again", 0) {
    signal(SIGPIPE, SIG_IGN); freshIpc(); static int serial = 0;
    delete cur; cur = new World(); World& w = *cur; // a case that fails is left at once; what it leaves is ended here
    w.dir = kit::scratchDir() + "/l" + std::to_string(getpid()) + "." + std::to_string(serial++); mkdir(w.dir.c_str(), 0700); w.err = w.dir + "/err"; Str cfgDir = w.dir + "/cfg/", other = w.dir + "/other"; mkdir(cfgDir.c_str(), 0700); mkdir(other.c_str(), 0700);
    w.shared = !r.chance(6); { FILE* f = fopen((cfgDir + "gateway.conf").c_str(), "w"); fprintf(f, "GatewayID=1\nShearedMemory=%s\n", w.shared ? r.chance(50) ? "YES" : "yes" : r.chance(50) ? "NO" : "no"); fclose(f); }
    w.cwd = r.chance(40) ? other : cfgDir; w.mcwd = r.chance(40) ? other : cfgDir; bool elsewhere = w.cwd == other; w.full = cfgDir + "gateway.conf"; w.explicitConf = r.chance(50); note("log %s, started in %s", w.shared ? "in shared memory" : "on stdout", elsewhere ? "another directory" : "the directory of the configuration");
    w.startGw(); uint64_t seed = r.next() & 0xffffffff; const size_t KEEP = 8000, ROOM = 12000;
    if (!w.shared) {
        Str L; for (int k = r.range(1, 5); k > 0; k--) { Cmd c{1, (uint32_t)r.range(1, 200), seed++, 900, 0}; for (uint32_t i = 0; i < c.n; i++) L += entry(c.seed, i, 0, c.maxLen); w.log(c, "burst"); }
        w.stopGw(false); kit::evals(); if (w.O != L) fail("ShearedMemory=NO: the gateway wrote %zu octets of its log of %zu to stdout, or others", w.O.size(), L.size()); count("logs_on_stdout_checked"); kit::distinct(kit::fnv(L.data(), L.size())); delete cur; cur = nullptr; return;
    }
    Str L; size_t read = 0; // what was logged; how much of it the monitor has printed
    size_t inRing = 0, optional = 0; bool mayLose = false; // optional: up to here a monitor that was killed may have taken it
    uint64_t h = 1; Str hist;
    auto settle = [&](const char* what) { // everything is printed, in order, each octet once
        double t0 = nowS(), idle = t0; size_t must = std::max(read, optional); Str tail = L.substr(L.size() - std::min<size_t>(L.size() - must, 40));
        for (;;) { if (w.pump()) idle = nowS(); w.alive(); if (w.O.size() >= tail.size() && !w.O.compare(w.O.size() - tail.size(), tail.size(), tail) && nowS() - idle > 0.03) break; if (w.O.size() > L.size() - read + 40000) break; if (nowS() - t0 > 8 && nowS() - idle > 2) break; usleep(300); }
        kit::evals(); count("log_reads_checked"); count("log_octets_checked", w.O.size()); size_t i = 0, p = read, lastPiece = 0, pieces = 0; Str& O = w.O;
        while (i < O.size()) {
            size_t n = std::min<size_t>(O.size() - i, 40), at;
            if (p + n <= L.size() && !L.compare(p, n, O, i, n)) at = p; else if (!mayLose) fail("%s: the log monitor printed \"%s\" where \"%s\" was logged (octet %zu of %zu)", what, show(O.substr(i)).c_str(), show(L.substr(p)).c_str(), p, L.size()); else at = L.find(O.substr(i, n), p);
            for (size_t k = n; at == Str::npos && mayLose && k-- > 1;) at = L.find(O.substr(i, k), p);
            if (at == Str::npos) fail("%s: the log monitor printed \"%s\", which was not logged, or out of order, or again", what, show(O.substr(i)).c_str());
            size_t l = 0; while (i + l < O.size() && at + l < L.size() && L[at + l] == O[i + l]) l++;
            if (at != p || !pieces) lastPiece = 0, pieces++; lastPiece += l; p = at + l; i += l;
        }
        if (p < L.size() && optional == L.size()) p = L.size();
        if (p != L.size()) fail("%s: the log monitor printed %zu octets, up to %zu of the %zu logged: \"%s\" is missing", what, O.size(), p, L.size(), show(L.substr(p)).c_str());
        if (pieces > 1 || O.size() < L.size() - read) { if (!mayLose) fail("%s: %zu of %zu octets of the log are missing", what, L.size() - read - O.size(), L.size() - read); if (lastPiece < std::min(KEEP, L.size() - must)) fail("%s: of the last %zu octets logged only %zu were printed in one piece", what, std::min(KEEP, L.size() - must), lastPiece); count("log_overruns_checked"); }
        read = L.size(); O.clear(); inRing = 0; mayLose = false;
    };
    auto burst = [&](size_t room, uint32_t maxLen, const char* what) {
        Cmd c{1, 0, seed++, maxLen, 0}; size_t n = 0; while (c.n < 3000) { Str s = entry(c.seed, c.n, 0, c.maxLen); if (n + s.size() > room) break; n += s.size(); L += s; c.n++; }
        if (!c.n) return; hist += Str(what) + " " + std::to_string(n) + "; "; note("%s: %u entries, %zu octets", what, c.n, n); w.log(c, what); inRing += n; count("log_entries", c.n); h = h * 31 + n;
    };
    const std::vector<uint32_t> lens{20, 120, 900, 4000};
    if (r.chance(70)) w.startMon();
    for (int step = 0, steps = r.range(4, 16); step < steps; step++) {
        uint32_t ml = r.pick(lens); int what = r.below(100);
        if (what < 45) { // the monitor keeps up, or finds what was logged before it started
            if (inRing < ROOM) burst(r.below(100) < 30 ? r.range(1, 200) : r.range(200, ROOM - inRing > 200 ? ROOM - inRing : 201), ml, "burst"); if (inRing > ROOM) mayLose = true;
            if (w.mon) settle("burst");
        } else if (what < 58) { // several threads log at once
            if (!w.mon) continue; settle("before threads"); Cmd c{1, 0, seed++, std::min<uint32_t>(ml, 900), (uint32_t)r.range(2, 4)}; size_t n = 0; while (n < ROOM && c.n < 60) { for (uint32_t k = 1; k <= c.thread; k++) n += entry(c.seed, c.n, k, c.maxLen).size(); c.n++; } while (n > ROOM) { c.n--; for (uint32_t k = 1; k <= c.thread; k++) n -= entry(c.seed, c.n, k, c.maxLen).size(); }
            if (!c.n) continue; hist += "threads; "; note("%u threads log %u entries each", c.thread, c.n); w.log(c, "threads"); double t0 = nowS(); while (w.O.size() < n && nowS() - t0 < 8) { if (w.pump()) t0 = nowS(); w.alive(); usleep(300); } usleep(20000); w.pump();
            kit::evals(); count("log_threads_checked"); std::vector<uint32_t> next(5, 0); size_t i = 0;
            while (i < w.O.size()) { bool hit = false; for (uint32_t k = 1; k <= c.thread && !hit; k++) if (next[k] < c.n) { Str s = entry(c.seed, next[k], k, c.maxLen); if (!w.O.compare(i, s.size(), s)) { i += s.size(); next[k]++; hit = true; } } if (!hit) fail("threads: the log monitor printed \"%s\", which no thread logged then", show(w.O.substr(i)).c_str()); }
            for (uint32_t k = 1; k <= c.thread; k++) if (next[k] != c.n) fail("threads: the log monitor printed %u of the %u entries of thread %u", next[k], c.n, k);
            w.O.clear(); h = h * 31 + n;
        } else if (what < 70) { // more than fits, while the monitor is slow or away
            size_t n = r.range(9000, 60000); burst(n, ml, "overrun"); mayLose = true; if (w.mon) settle("overrun"); else count("overruns_without_monitor");
        } else if (what < 85) { if (!w.mon) { w.startMon(); hist += "monitor starts; "; note("monitor starts"); settle("start of the monitor"); count("monitor_starts"); } else { hist += "monitor interrupted; "; note("monitor interrupted"); if (r.chance(40)) settle("before SIGINT"); bool busy = r.chance(50);
                if (busy) { settle("before SIGINT"); Cmd c{1, (uint32_t)r.range(1, 80), seed++, std::min<uint32_t>(ml, 120), 0}; for (uint32_t i = 0; i < c.n; i++) { Str s = entry(c.seed, i, 0, c.maxLen); L += s; inRing += s.size(); } write(w.ctl, &c, sizeof c); for (double t0 = nowS(), d = r.below(400) * 1e-6; nowS() - t0 < d;) w.pump(); count("monitor_interrupted_while_reading"); }
                w.stopMon(SIGINT); if (busy) w.ack("burst"); count("monitor_interrupted"); }
        } else if (what < 88) { // the monitor is killed while it reads
            if (!w.mon) continue; settle("before SIGKILL"); Cmd c{1, (uint32_t)r.range(50, 1500), seed++, ml, 0}; for (uint32_t i = 0; i < c.n; i++) { Str s = entry(c.seed, i, 0, ml); L += s; } note("%u entries, monitor killed meanwhile", c.n); write(w.ctl, &c, sizeof c); for (double t0 = nowS(), d = r.below(3000) * 1e-6; nowS() - t0 < d;) w.pump();
            w.stopMon(SIGKILL); w.ack("log after the monitor was killed"); mayLose = true; w.O.clear(); optional = L.size(); count("monitor_killed_while_reading"); burst(200, 20, "after the kill");
        } else if (what < 91) { if (w.mon) { settle("before SIGKILL"); hist += "monitor killed; "; note("monitor killed"); w.stopMon(SIGKILL); count("monitor_killed"); }
        } else if (what < 96) { // the gateway starts again; the monitor is started after it
            if (w.mon) { settle("before the restart"); w.stopMon(SIGINT); } bool k9 = r.chance(50); if (k9 && r.chance(60)) { uint32_t n = r.range(1, 3000); Cmd c{1, n, seed++, ml, 0}; write(w.ctl, &c, sizeof c); usleep(r.below(1500)); count("gateway_killed_while_logging"); } hist += "gateway starts again; "; note("gateway %s and started again", k9 ? "killed" : "stopped"); w.stopGw(k9); w.startGw(); mayLose = true; w.O.clear(); count("gateway_restarts");
            size_t before = L.size(); burst(r.range(300, 3000), 120, "after the restart"); w.startMon();
            // what was logged before may be gone; what was logged since is not
            double t0 = nowS(); Str tail = L.substr(L.size() - 30); while (nowS() - t0 < 8) { w.pump(); w.alive(); if (w.O.size() >= 30 && !w.O.compare(w.O.size() - 30, 30, tail)) break; usleep(300); }
            usleep(30000); w.pump(); Str since = L.substr(before); kit::evals(); if (w.O.size() < since.size() || w.O.compare(w.O.size() - since.size(), since.size(), since)) fail("after the gateway started again the log monitor printed \"%s\", \"%s\" was logged since", show(w.O).c_str(), show(since).c_str());
            read = L.size(); w.O.clear(); inRing = 0; mayLose = false;
        } else if (!w.mon) { w.startMon(); settle("start of the monitor"); }
    }
    if (!w.mon) w.startMon(); settle("end"); if (r.chance(50)) { w.stopMon(SIGINT); w.stopGw(false); } else { w.stopGw(false); w.stopMon(SIGINT); }
    kit::distinct(h); count("log_cases"); kit::sample(hist); delete cur; cur = nullptr;
}
