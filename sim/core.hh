// Simulator core: one choice stream, one simulated clock (instrumented edges), fault seams.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- choices: every decision of a run is drawn here, recorded, and can be replayed ----
uint32_t pick(uint32_t n);                                   // 0..n-1 ; value 0 is always the simplest choice
inline bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; } // simplest: false
inline bool more(uint32_t den) { return pick(den) != 0; }    // simplest: stop
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }
uint64_t wide();                                             // 64 random bits (two choices)

// ---- history ----
extern bool verbose;
void logf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void log(std::string const& s);
void mix(uint64_t h);
void mix(std::string const& s);
uint64_t hash_bytes(void const* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash_str(std::string const& s) { return hash_bytes(s.data(), s.size()); }
void state(uint64_t h);                                      // a state reached (distinct-state measure)
void op();                                                   // one operation performed
[[noreturn]] void violation(char const* kind, std::string const& msg);

// ---- faults ----
enum Fault {
  F_ALLOC_FAIL, F_ALLOC_CAP, F_SHORT_READ, F_READ_ERROR, F_READ_THROW, F_CUT, F_TORN, F_LOST_SECTOR, F_STALE_SECTOR,
  F_DUP_SECTOR, F_BITFLIP, F_OVERWRITE, F_DISK_FULL, F_WRITE_ERROR, F_WRITE_THROW, F_SHORT_WRITE, F_PREEMPT,
  F_MISUSE, F_MSG_LOSS, F_MSG_DUP, F_MSG_REORDER, F_SMALL_BUFFER, F_LUA_ALLOC, F_SCRIPT_FAIL, F_CRASH, F_COUNT_LIE, F_LOCK_WAIT, F_EINTR, F_HOST_ALLOC, F_SIGNAL,
  F__N
};
extern char const* fault_names[F__N];
void fault(Fault f);

// ---- memory requests of the library (global operator new) ----
struct AllocPlan {
  int mode = 0;          // 0 off, 1 fail the n-th, 2 fail from the n-th on, 3 fail each with chance 1/n, 4 fail n-th and (n+m)-th
  uint32_t n = 0, m = 0;
};
void arm(AllocPlan const& p);      // counts restart at the next library request
void disarm();
uint64_t fired();                  // memory requests failed since arm()
uint64_t requests();               // library memory requests since arm()/reset
void reset_requests();
uint64_t bytes_requested();        // total bytes the library asked for since reset_requests()
uint64_t live_blocks();            // library blocks still allocated
void set_alloc_cap(size_t max_single);

// Library code runs inside a Lib scope: faults apply, blocks are tracked, steps are budgeted.
struct Lib  { Lib(); ~Lib(); };
// Harness code called back from library code (stream buffers, hooks).
struct Out  { int saved; Out(); ~Out(); };
void set_step_limit(uint64_t steps);   // per Lib scope
uint64_t steps();                      // simulated time: instrumented edges executed so far

// ---- threads under a baton: exactly one runs, preemption at instrumented points ----
struct ThreadBody { std::function<void()> fn; };
void run_threads(std::vector<std::function<void()>> const& bodies, uint32_t mean_gap, uint32_t shared_bias);
extern uint64_t switches;
uint64_t schedule_hash();

// ---- leak check protocol ----
// scenario() is run; if library blocks stay allocated afterwards the same choices are run again in the
// same process and the leak counts only if it grows again (lazily created statics do not).
void run_scenario(void (*scenario)());
void ignore_leaks();                   // this run feeds a vendored parser malformed text; its own leaks are out of scope

struct Scenario { char const* id; void (*fn)(); };
extern Scenario const scenarios[];
}
