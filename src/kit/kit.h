// Small harness kit for in-process components: seeded cases, forked workers, crash capture, evidence counters.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include "../sim/sim.h" // Rng, Bytes
#include "../refcodec.h"
namespace kit {
struct Prop { const char* name; void (*run)(Rng& r, uint64_t caseIdx); const char* what; uint64_t fixedCases; };
std::vector<Prop>& props();
struct Reg { Reg(const char* n, void (*f)(Rng&, uint64_t), const char* w, uint64_t fixed = 0) { props().push_back({n, f, w, fixed}); } };
#define KITPROP(id, what, fixed) static void kit_##id(Rng& r, uint64_t idx); static kit::Reg kreg_##id(#id, kit_##id, what, fixed); static void kit_##id(Rng& r, uint64_t idx)
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); // report a violation and end the case
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));            // what the case is doing (kept for the replay file)
void count(const char* what, uint64_t n = 1);
void distinct(uint64_t h);      // one non-trivial situation actually evaluated
void evals(uint64_t n = 1);     // oracle evaluations
void sample(const std::string& s);
bool verbose();
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
void flushCoverage();            // of a process the case has started
std::string scratchDir();       // private directory of this worker
}
