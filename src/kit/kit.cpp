#include "kit.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <set>
extern "C" {
const char* __asan_default_options() { return "exitcode=66:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:handle_segv=1:max_allocation_size_mb=1024:quarantine_size_mb=8:malloc_context_size=6:symbolize=1"; }
const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=66"; }
}
namespace kit {
enum { NB = 1 << 24, NCOV = 1 << 14, NJ = 16, MAXC = 64, MAXV = 40 };
struct Worker { volatile int64_t cur; uint64_t seed; volatile int failed; char msg[3000]; char trace[6000]; uint32_t tlen; volatile uint64_t done; };
struct Shared {
    volatile uint64_t next; volatile uint64_t evals, cases; volatile int stop;
    struct { char name[40]; volatile uint64_t n; } cnt[MAXC]; volatile int cntLock;
    uint8_t bits[NB / 8]; uint8_t cov[NCOV];
    char samples[3][1500]; volatile int nsamp;
    Worker w[NJ];
};
static Shared* sh; static Worker* me; static int meIdx; static bool verb = false; static std::string scratch_;
std::vector<Prop>& props() { static auto* v = new std::vector<Prop>; return *v; }
bool verbose() { return verb; }
std::string scratchDir() { return scratch_; }
uint64_t fnv(const void* p, size_t n, uint64_t h) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
static jmp_buf jb;
void note(const char* fmt, ...) { if (me->tlen > sizeof me->trace - 400) return; va_list ap; va_start(ap, fmt); int n = vsnprintf(me->trace + me->tlen, sizeof me->trace - me->tlen - 2, fmt, ap); va_end(ap); if (n < 0) return; me->tlen += n; if (me->tlen > sizeof me->trace - 3) me->tlen = sizeof me->trace - 3; me->trace[me->tlen++] = '\n'; me->trace[me->tlen] = 0; }
void fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(me->msg, sizeof me->msg, fmt, ap); va_end(ap); me->failed = 1; longjmp(jb, 1); }
void count(const char* what, uint64_t n) {
    for (auto& c : sh->cnt) {
        if (!c.name[0]) { while (__sync_lock_test_and_set(&sh->cntLock, 1)) {} if (!c.name[0]) snprintf(c.name, sizeof c.name, "%s", what); __sync_lock_release(&sh->cntLock); }
        if (!strncmp(c.name, what, 39)) { __sync_fetch_and_add(&c.n, n); return; }
    }
}
void distinct(uint64_t h) { h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h >>= 40; __sync_fetch_and_or(&sh->bits[h / 8], (uint8_t)(1 << (h % 8))); }
void evals(uint64_t n) { __sync_fetch_and_add(&sh->evals, n); }
void sample(const std::string& s) { if (sh->nsamp >= 3) return; int i = __sync_fetch_and_add(&sh->nsamp, 1); if (i < 3) snprintf(sh->samples[i], sizeof sh->samples[i], "%s", s.c_str()); }
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003 + b); return r.next(); }
static uint8_t *covB[64], *covE[64]; static int ncov;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e) { if (ncov && covB[ncov - 1] == b) return; if (ncov < 64) { covB[ncov] = b; covE[ncov++] = e; } }
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
void flushCoverage() { size_t k = 0; for (int i = 0; i < ncov; i++) for (uint8_t* p = covB[i]; p < covE[i]; p++, k++) if (*p) sh->cov[k % NCOV] = 1; }
static std::string jesc(const std::string& s) { std::string o; char t[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\u%04x", c); o += t; } else o += c; } return o; }
static std::string slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while (s.size() < 12000 && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void oneCase(const Prop& p, uint64_t seed, uint64_t idx) {
    me->failed = 0; me->tlen = 0; me->trace[0] = 0; me->msg[0] = 0; me->seed = seed;
    if (setjmp(jb) == 0) { Rng r(seed); p.run(r, idx); }
    __sync_fetch_and_add(&sh->cases, 1);
}
int main_(int argc, char** argv) {
    std::string name, out, rdir = "."; uint64_t seed = 1, cases = 1000, caseSeed = 0, caseIdx = 0; double maxSec = 1e9; int jobs = 8; bool have = false; int wall = 30;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--scenario") name = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10); else if (a == "--max-sec") maxSec = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay-dir") rdir = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--case-seed") { caseSeed = strtoull(nx().c_str(), 0, 10); have = true; } else if (a == "--case-idx") caseIdx = strtoull(nx().c_str(), 0, 10); else if (a == "--list") { for (auto& p : props()) printf("%s %s\n", p.name, p.what); return 0; }
    }
    const Prop* P = nullptr; for (auto& p : props()) if (name == p.name) P = &p;
    if (!P) { fprintf(stderr, "unknown %s\n", name.c_str()); return 2; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char tmpl[] = "/tmp/kit.XXXXXX"; if (!mkdtemp(tmpl)) return 2; std::string scratch = tmpl;
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (have) {
        me = &sh->w[0]; verb = true; scratch_ = scratch;
        oneCase(*P, caseSeed, caseIdx);
        printf("%s", me->trace); printf("RESULT %s %s\n", me->failed ? "VIOLATION" : "pass", me->msg);
        if (system(("rm -rf " + scratch).c_str())) {}
        return me->failed;
    }
    if (jobs > NJ) jobs = NJ;
    double t0 = now(); std::vector<std::string> viol; std::set<std::string> seen; uint64_t total = cases + P->fixedCases; uint64_t nviol = 0;
    std::vector<pid_t> pid(jobs, 0); std::vector<double> t(jobs, 0); std::vector<uint64_t> lastDone(jobs, 0);
    auto spawn = [&](int j) {
        sh->w[j].cur = -1; fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            me = &sh->w[j]; meIdx = j; char d[300]; snprintf(d, sizeof d, "%s/w%d", scratch.c_str(), j); if (system((std::string("mkdir -p ") + d).c_str())) {} scratch_ = d;
            int fd = open((scratch + "/err" + std::to_string(j)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
            if (chdir(d)) _exit(9);
            uint64_t n = 0;
            while (!sh->stop) {
                uint64_t i = __sync_fetch_and_add(&sh->next, 1); if (i >= total) break;
                if ((n++ & 15) == 0 && now() - t0 > maxSec) break;
                me->cur = (int64_t)i;
                oneCase(*P, mix(seed, i), i);
                me->done++;
                if (me->failed) { flushCoverage(); _exit(1); }
            }
            flushCoverage(); _exit(0);
        }
        pid[j] = p; t[j] = now(); lastDone[j] = sh->w[j].done;
    };
    for (int j = 0; j < jobs; j++) spawn(j);
    int alive = jobs;
    while (alive) {
        for (int j = 0; j < jobs; j++) {
            if (!pid[j]) continue;
            int st; pid_t r = waitpid(pid[j], &st, WNOHANG);
            bool hang = false;
            if (r == 0) {
                if (sh->w[j].done != lastDone[j]) { lastDone[j] = sh->w[j].done; t[j] = now(); }
                if (now() - t[j] > wall) { kill(pid[j], SIGKILL); waitpid(pid[j], &st, 0); hang = true; } else continue;
            }
            pid[j] = 0;
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
            Worker& w = sh->w[j]; std::string err = slurp(scratch + "/err" + std::to_string(j)), msg;
            if (hang) msg = "hang: no progress for " + std::to_string(wall) + " s";
            else if (w.failed && WIFEXITED(st) && WEXITSTATUS(st) == 1) msg = w.msg;
            else {
                char b[64]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "crash: exit status %d", WEXITSTATUS(st));
                msg = b; size_t p = err.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = err.find("WARNING: ThreadSanitizer"); if (p == std::string::npos) p = err.find("runtime error:"); if (p != std::string::npos) { size_t e = err.find('\n', p); msg += "; " + err.substr(p, e - p); }
                int nf = 0; size_t q = 0; while (nf < 4 && (q = err.find("    #", q)) != std::string::npos) { size_t e = err.find('\n', q); std::string l = err.substr(q, e - q); q = e; size_t i = l.find(" in "); if (i != std::string::npos && l.find("/src/") != std::string::npos && l.find("kit") == std::string::npos) { msg += " <- " + l.substr(i + 4, 120); nf++; } }
            }
            nviol++;
            std::string key = msg.substr(0, 50);
            if (viol.size() < MAXV && !seen.count(key)) {
                seen.insert(key);
                std::string f = rdir + "/" + P->name + "-" + std::to_string(w.seed) + ".txt";
                FILE* fp = fopen(f.c_str(), "w"); if (fp) { fprintf(fp, "kit %s --case-seed %llu --case-idx %lld\n%s\n--- trace\n%s\n--- stderr\n%s\n", P->name, (unsigned long long)w.seed, (long long)w.cur, msg.c_str(), w.trace, err.c_str()); fclose(fp); }
                viol.push_back("{\"tag\":\"*\",\"msg\":\"" + jesc(msg) + "\",\"replay\":\"" + jesc(f) + "\",\"seed\":\"" + std::to_string(w.seed) + "\",\"trace\":\"" + jesc(std::string(w.trace).substr(0, 600)) + "\"}");
            }
            if (nviol > 25 || now() - t0 > maxSec) { sh->stop = 1; alive--; continue; }
            spawn(j);
        }
        struct timespec ts = {0, 3000000}; nanosleep(&ts, nullptr);
    }
    uint64_t d = 0; for (size_t i = 0; i < sizeof sh->bits; i++) d += __builtin_popcount(sh->bits[i]);
    size_t ce = 0, ct = 0; for (int i = 0; i < NCOV; i++) ce += sh->cov[i]; for (int i = 0; i < ncov; i++) ct += covE[i] - covB[i];
    std::string j = "{\"scenario\":\"" + name + "\",\"cases\":" + std::to_string(sh->cases) + ",\"evals\":" + std::to_string(sh->evals) + ",\"distinct\":" + std::to_string(d) + ",\"violating\":" + std::to_string(nviol) + ",\"edges\":" + std::to_string(ce) + ",\"edges_total\":" + std::to_string(ct) + ",\"counters\":{";
    bool f = true; for (auto& c : sh->cnt) if (c.name[0]) { j += (f ? "" : ",") + std::string("\"") + c.name + "\":" + std::to_string(c.n); f = false; }
    j += "},\"samples\":["; for (int i = 0; i < sh->nsamp && i < 3; i++) j += (i ? "," : "") + std::string("\"") + jesc(sh->samples[i]) + "\"";
    j += "],\"violations\":["; for (size_t i = 0; i < viol.size(); i++) j += (i ? "," : "") + viol[i]; j += "]}\n";
    if (out.empty()) printf("%s", j.c_str()); else { FILE* fp = fopen(out.c_str(), "w"); fputs(j.c_str(), fp); fclose(fp); }
    if (system(("rm -rf " + scratch).c_str())) {}
    return 0;
}
}
int main(int argc, char** argv) { return kit::main_(argc, argv); }
