#include <sys/stat.h>
#include "core.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <exception>
#include <algorithm>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#define NOCOV __attribute__((no_sanitize("coverage")))

namespace sim {

char const* fault_names[F__N] = {
  "alloc_fail","alloc_cap","short_read","read_error","read_throw","cut_short","torn_write","lost_sector","stale_sector",
  "duplicated_sector","bit_flip","byte_overwrite","disk_full","write_error","write_throw","short_write","preemption",
  "misuse","message_loss","message_duplication","message_reorder","small_buffer","lua_alloc_fail","script_failure","crash","count_corruption","lock_wait","interrupted_read","host_alloc_fail","interrupt_signal"
};

static const uint32_t MAXCH = 1u << 21;
static const uint32_t NSET  = 1u << 21;
static const uint32_t MAXEDGE = 1u << 17;

struct Shared {
  uint64_t runs, ops, steps, choices, states_seen, switches;
  uint64_t faults[F__N];
  uint64_t hash;
  uint32_t nch;            // choices of this process so far
  uint32_t nseg;           // runs started in this process
  uint32_t seg[4096];      // where the choices of each run start
  int      has_viol;
  char     kind[96];
  char     msg[8192];
  uint32_t nstates;
  uint8_t  edge[MAXEDGE];
  uint64_t stateset[NSET];
  uint32_t ch[MAXCH];
};
static Shared* S = nullptr;
bool verbose = false;

// ---------------------------------------------------------------- choices
static bool     g_replay = false;
static uint32_t const* g_in = nullptr;
static uint32_t g_nin = 0, g_pos = 0, g_start = 0;
static uint64_t g_rng[2];
static uint32_t g_rec = 0;

static NOCOV uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static NOCOV uint64_t rng() {
  uint64_t s1 = g_rng[0], s0 = g_rng[1], r = s0 + s1;
  g_rng[0] = s0; s1 ^= s1 << 23;
  g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
uint32_t pick(uint32_t n) {
  uint32_t v;
  if (n == 0) n = 1;
  if (g_replay) v = g_pos < g_nin ? g_in[g_pos] % n : 0;
  else          v = n == 1 ? 0 : uint32_t((rng() >> 20) % n);
  g_pos++;
  if (!g_replay || g_rec) { if (S->nch < MAXCH) S->ch[S->nch++] = v; }
  S->choices++;
  S->hash = (S->hash ^ v) * 1099511628211ull + 0x9e37;
  if (g_pos > MAXCH) violation("harness-choices", "choice stream exhausted");
  return v;
}
uint64_t wide() {
  uint64_t a = pick(0x10000), b = pick(0x10000), c = pick(0x10000), d = pick(0x10000);
  return a | b << 16 | c << 32 | d << 48;
}

// ---------------------------------------------------------------- history
static FILE* g_trace = nullptr;
void logf(char const* fmt, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, fmt);
  vfprintf(g_trace ? g_trace : stderr, fmt, ap);
  va_end(ap);
  fputc('\n', g_trace ? g_trace : stderr);
}
void log(std::string const& s) {
  if (!verbose) return;
  FILE* f = g_trace ? g_trace : stderr;
  for (unsigned char c : s) {
    if (c == '\n') fputs("\\n", f); else if (c < 32 || c >= 127) fprintf(f, "\\x%02x", c); else fputc(c, f);
  }
  fputc('\n', f);
}
uint64_t hash_bytes(void const* p, size_t n, uint64_t h) {
  unsigned char const* b = (unsigned char const*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h;
}
void mix(uint64_t h) { S->hash = (S->hash ^ h) * 1099511628211ull + 1; }
void mix(std::string const& s) { mix(hash_str(s)); }
void state(uint64_t h) {
  if (h == 0) h = 1;
  S->states_seen++;
  uint32_t i = uint32_t(h >> 13) & (NSET - 1);
  for (int k = 0; k < 64; ++k, i = (i + 1) & (NSET - 1)) {
    if (S->stateset[i] == h) return;
    if (S->stateset[i] == 0) { S->stateset[i] = h; S->nstates++; return; }
  }
}
void op() { S->ops++; }
void fault(Fault f) { S->faults[f]++; }

void violation(char const* kind, std::string const& msg) {
  if (!S->has_viol) {
    S->has_viol = 1;
    snprintf(S->kind, sizeof S->kind, "%s", kind);
    size_t o = 0;
    for (unsigned char c : msg) {
      if (o + 8 >= sizeof S->msg) break;
      if (c == '\n') { S->msg[o++] = '\\'; S->msg[o++] = 'n'; }
      else if (c < 32 || c >= 127) o += size_t(snprintf(S->msg + o, 8, "\\x%02x", c));
      else S->msg[o++] = char(c);
    }
    S->msg[o] = 0;
  }
  if (verbose) { FILE* f = g_trace ? g_trace : stderr; fprintf(f, "!! %s: %s\n", S->kind, S->msg); fflush(f); }
  _exit(42);
}

// ---------------------------------------------------------------- memory
static thread_local int g_in_lib = 0;
static AllocPlan g_plan;
static uint64_t g_req = 0, g_bytes = 0, g_fired = 0, g_plan_count = 0;
static size_t g_cap = size_t(1) << 28;

// live library blocks: open addressing pointer set
static const uint32_t NB = 1u << 20;
static void** g_tab = nullptr;
static uint64_t g_live = 0;
static NOCOV uint32_t slot(void* p) { uint64_t h = uint64_t(p) * 0x9e3779b97f4a7c15ull; return uint32_t(h >> 44) & (NB - 1); }
static NOCOV void tab_add(void* p) {
  if (!g_tab) return;
  uint32_t i = slot(p);
  while (g_tab[i] && g_tab[i] != (void*)1) i = (i + 1) & (NB - 1);
  g_tab[i] = p; g_live++;
}
static NOCOV void tab_del(void* p) {
  if (!g_tab || !g_live) return;
  uint32_t i = slot(p);
  for (uint32_t k = 0; k < NB && g_tab[i]; ++k, i = (i + 1) & (NB - 1))
    if (g_tab[i] == p) {
      uint32_t nx = (i + 1) & (NB - 1);
      g_tab[i] = g_tab[nx] ? (void*)1 : nullptr; g_live--; return;
    }
}
static NOCOV void tab_clear() { if (g_tab && g_live) memset(g_tab, 0, NB * sizeof(void*)); g_live = 0; }

void arm(AllocPlan const& p) { g_plan = p; g_req = 0; g_bytes = 0; g_fired = 0; g_plan_count = 0; }
void disarm() { g_plan.mode = 0; }
uint64_t fired() { return g_fired; }
uint64_t requests() { return g_req; }
void reset_requests() { g_req = 0; g_bytes = 0; }
uint64_t bytes_requested() { return g_bytes; }
uint64_t live_blocks() { return g_live; }
void set_alloc_cap(size_t m) { g_cap = m; }

static NOCOV bool should_fail(size_t n) {
  g_req++; g_bytes += n;
  if (n > g_cap) { fault(F_ALLOC_CAP); return true; }
  if (!g_plan.mode) return false;
  uint64_t k = ++g_plan_count;
  bool f = false;
  switch (g_plan.mode) {
  case 1: f = k == g_plan.n; break;
  case 2: f = k >= g_plan.n; break;
  case 3: f = pick(g_plan.n) == g_plan.n - 1; break;
  case 4: f = k == g_plan.n || k == g_plan.n + g_plan.m; break;
  }
  if (f) { g_fired++; fault(F_ALLOC_FAIL); }
  return f;
}
static uint64_t g_steps = 0, g_scope_start = 0, g_limit = 40000000;

Lib::Lib() { if (g_in_lib++ == 0) g_scope_start = g_steps; }
Lib::~Lib() { --g_in_lib; }
Out::Out() : saved(g_in_lib) { g_in_lib = 0; }
Out::~Out() { g_in_lib = saved; }
void set_step_limit(uint64_t s) { g_limit = s; }
uint64_t steps() { return g_steps; }

// ---------------------------------------------------------------- threads
uint64_t switches = 0;
static uint64_t g_sched_hash = 0;
struct Thr { sem_t sem; bool done = false; };
static std::vector<Thr*>* g_thr = nullptr;
static bool g_sched_on = false;
static thread_local int g_me = -1;
static int64_t g_until = 0;
static uint32_t g_gap = 100, g_bias = 0;
static char* g_data_lo = nullptr; static char* g_data_hi = nullptr;

static NOCOV void draw_gap() {
  // geometric-ish: mostly short, sometimes long
  uint32_t k = pick(8);
  if (k == 0) g_until = int64_t(g_gap) * 64 + 1;
  else if (k < 4) g_until = 1 + pick(g_gap / 8 + 1);
  else if (k < 7) g_until = 1 + pick(g_gap);
  else g_until = 1 + pick(g_gap * 8);
}
static NOCOV void switch_to(int t) {
  if (t == g_me) return;
  switches++; S->switches++;
  Thr* me = (*g_thr)[size_t(g_me)];
  sem_post(&(*g_thr)[size_t(t)]->sem);
  while (sem_wait(&me->sem) != 0) {}
}
static NOCOV int choose_other() {
  int cand[64], n = 0;
  for (size_t i = 0; i < g_thr->size(); ++i) if (int(i) != g_me && !(*g_thr)[i]->done) cand[n++] = int(i);
  if (!n) return -1;
  return cand[pick(uint32_t(n))];
}
static NOCOV void maybe_yield() {
  int saved = g_in_lib; g_in_lib = 0;
  bool on = g_sched_on; g_sched_on = false;
  int t = choose_other();
  draw_gap();
  if (t >= 0) {
    fault(F_PREEMPT);
    g_sched_hash = (g_sched_hash ^ uint64_t(t + 1) ^ (g_steps << 8)) * 1099511628211ull;
    g_sched_on = on;
    switch_to(t);
  } else g_sched_on = on;
  g_in_lib = saved;
}
uint64_t schedule_hash() { return g_sched_hash; }

struct StartArg { int id; std::function<void()> const* fn; };
static void* thr_main(void* a) {
  StartArg* s = (StartArg*)a;
  g_me = s->id;
  Thr* me = (*g_thr)[size_t(g_me)];
  while (sem_wait(&me->sem) != 0) {}
  (*s->fn)();
  // finished: hand the baton on
  g_sched_on = false;
  me->done = true;
  int t = choose_other();
  if (t >= 0) { g_sched_on = true; sem_post(&(*g_thr)[size_t(t)]->sem); }
  else sem_post(&(*g_thr)[0]->sem);   // slot 0 is the launcher
  return nullptr;
}
void run_threads(std::vector<std::function<void()>> const& bodies, uint32_t mean_gap, uint32_t shared_bias) {
  std::vector<Thr*> thr; 
  for (size_t i = 0; i <= bodies.size(); ++i) { Thr* t = new Thr; sem_init(&t->sem, 0, 0); thr.push_back(t); }
  thr[0]->done = true;                 // launcher never a candidate
  g_thr = &thr; g_gap = mean_gap; g_bias = shared_bias; g_me = 0; g_sched_hash = 0;
  std::vector<pthread_t> tid(bodies.size());
  std::vector<StartArg> args(bodies.size());
  for (size_t i = 0; i < bodies.size(); ++i) {
    args[i] = StartArg{int(i + 1), &bodies[i]};
    pthread_create(&tid[i], nullptr, thr_main, &args[i]);
  }
  draw_gap();
  int first = choose_other();
  g_sched_on = true;
  sem_post(&thr[size_t(first)]->sem);
  while (sem_wait(&thr[0]->sem) != 0) {}
  g_sched_on = false;
  for (auto t : tid) pthread_join(t, nullptr);
  g_thr = nullptr; g_me = -1;
  for (auto t : thr) { sem_destroy(&t->sem); delete t; }
}

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- instrumentation callbacks
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  static uint32_t n = 0;
  if (a == b || *a) return;
  for (uint32_t* p = a; p < b; ++p) *p = ++n < MAXEDGE ? n : MAXEDGE - 1;
}
static NOCOV __attribute__((noinline)) void hang() {
  violation("hang", "operation exceeded its budget of simulated steps (no progress)");
}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  g_steps++;
  if (S) S->edge[*g] = 1;
  if (g_steps - g_scope_start > g_limit && g_in_lib > 0) hang();
  if (g_sched_on && g_me > 0 && --g_until <= 0) maybe_yield();
}
static NOCOV inline void access(void const* p) {
  g_steps++;
  if (!g_sched_on || g_me <= 0) return;
  char const* c = (char const*)p;
  if (c >= g_data_lo && c < g_data_hi && g_bias) {
    // process-wide memory: a likely place for interference, preempt here often
    bool on = g_sched_on; g_sched_on = false;
    bool y = pick(g_bias) == g_bias - 1;
    g_sched_on = on;
    if (y) { maybe_yield(); return; }
  }
  if (--g_until <= 0) maybe_yield();
}
#define LS(n) \
extern "C" NOCOV void __sanitizer_cov_load##n(void* p) { access(p); } \
extern "C" NOCOV void __sanitizer_cov_store##n(void* p) { access(p); }
LS(1) LS(2) LS(4) LS(8) LS(16)

// ---------------------------------------------------------------- global operator new / delete
static NOCOV void* do_new(size_t n) {
  if (g_in_lib > 0) {
    if (should_fail(n)) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    tab_add(p);
    return p;
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
NOCOV void* operator new(size_t n) { return do_new(n); }
NOCOV void* operator new[](size_t n) { return do_new(n); }
NOCOV void* operator new(size_t n, std::nothrow_t const&) noexcept {
  if (g_in_lib > 0) { if (should_fail(n)) return nullptr; void* p = malloc(n ? n : 1); if (p) tab_add(p); return p; }
  return malloc(n ? n : 1);
}
NOCOV void* operator new[](size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
NOCOV void operator delete(void* p) noexcept { if (p) { tab_del(p); free(p); } }
NOCOV void operator delete[](void* p) noexcept { if (p) { tab_del(p); free(p); } }
NOCOV void operator delete(void* p, size_t) noexcept { if (p) { tab_del(p); free(p); } }
NOCOV void operator delete[](void* p, size_t) noexcept { if (p) { tab_del(p); free(p); } }
NOCOV void operator delete(void* p, std::nothrow_t const&) noexcept { if (p) { tab_del(p); free(p); } }
NOCOV void operator delete[](void* p, std::nothrow_t const&) noexcept { if (p) { tab_del(p); free(p); } }

// ---------------------------------------------------------------- blocking primitives: wait by yielding the baton
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
template <typename TRY> static NOCOV int baton_wait(TRY tr) {
  for (int i = 0;; ++i) {
    int r = tr();
    if (r != EBUSY) return r;
    if (i > 1000000) violation("deadlock", "a lock was never released");
    fault(F_LOCK_WAIT);
    maybe_yield();
  }
}
extern "C" NOCOV int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  if (!(g_sched_on && g_me > 0)) return real(m);
  return baton_wait([&] { return pthread_mutex_trylock(m); });
}
extern "C" NOCOV int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
  if (!(g_sched_on && g_me > 0)) return real(m);
  return baton_wait([&] { return pthread_rwlock_tryrdlock(m); });
}
extern "C" NOCOV int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
  if (!(g_sched_on && g_me > 0)) return real(m);
  return baton_wait([&] { return pthread_rwlock_trywrlock(m); });
}
// function-local statics: byte 0 = initialised, byte 1 = in progress (single runner, no real race)
extern "C" NOCOV int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  for (int i = 0;; ++i) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    if (!(g_sched_on && g_me > 0) || i > 1000000) violation("deadlock", "recursive or abandoned static initialisation");
    fault(F_LOCK_WAIT);
    maybe_yield();
  }
}
extern "C" NOCOV void __cxa_guard_release(uint64_t* g) { volatile char* b = (volatile char*)g; b[0] = 1; b[1] = 0; }
extern "C" NOCOV void __cxa_guard_abort(uint64_t* g) { volatile char* b = (volatile char*)g; b[1] = 0; }

// ---------------------------------------------------------------- scenario with leak confirmation
namespace sim {
static bool g_ignore_leaks = false;
void ignore_leaks() { g_ignore_leaks = true; }
void run_scenario(void (*fn)()) {
  uint64_t base = g_live;
  g_ignore_leaks = false;
  fn();
  disarm();
  if (g_live > base && !g_ignore_leaks) {
    uint64_t leak1 = g_live - base;
    // same choices again: lazily created statics are already there now
    bool rep = g_replay; auto in = g_in; auto nin = g_nin; uint32_t pos = g_pos; uint32_t rec = g_rec;
    std::vector<uint32_t> again;
    if (rep) again.assign(in, in + nin); else again.assign(S->ch + g_start, S->ch + S->nch);
    bool v = verbose; verbose = false;
    uint64_t base2 = g_live, h = S->hash;
    g_replay = true; g_in = again.data(); g_nin = uint32_t(again.size()); g_pos = 0; g_rec = 0;
    fn();
    disarm();
    uint64_t leak2 = g_live - base2;
    S->hash = h; verbose = v;
    g_replay = rep; g_in = in; g_nin = nin; g_pos = pos; g_rec = rec;
    if (g_live > base2) {
      char b[160]; snprintf(b, sizeof b, "%llu block(s) allocated by the library were never released (again %llu when repeated)",
                            (unsigned long long)leak1, (unsigned long long)leak2);
      violation("leak", b);
    }
  }
}
}

// ---------------------------------------------------------------- driver
extern "C" NOCOV char const* __asan_default_options() {
  return "symbolize=0:detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=256:malloc_context_size=4:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=512:detect_container_overflow=1:fast_unwind_on_malloc=1";
}
static Scenario const* find(char const* id) {
  for (Scenario const* s = scenarios; s->id; ++s) if (!strcmp(s->id, id)) return s;
  fprintf(stderr, "unknown scenario %s\n", id); exit(2);
}
static void on_terminate() {
  char const* what = "?";
  static char buf[512];
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (std::exception const& x) { snprintf(buf, sizeof buf, "%s", x.what()); what = buf; } catch (...) { what = "non-standard exception"; }
  }
  violation("terminate", std::string("std::terminate called: ") + what);
}
extern "C" char __data_start, _end;
typedef std::vector<uint32_t> Choices;
struct Job {                                   // what one process executes, in order
  bool replay = false;
  std::vector<Choices> segs;                   // replay: choices of each run
  uint64_t seed = 0; std::vector<uint64_t> idx; // search: run numbers
};
static void seed_rng(uint64_t seed, uint64_t idx) {
  uint64_t x = seed * 0x100000001b3ull ^ (idx + 0x51ed27) * 0x9e3779b97f4a7c15ull;
  g_rng[0] = splitmix(x); g_rng[1] = splitmix(x);
}
namespace sim { void new_run(); }   // model.cc
static void child_run(Scenario const* sc, Job const& job) {
  g_data_lo = &__data_start; g_data_hi = &_end;
  std::set_terminate(on_terminate);
  if (!g_tab) g_tab = (void**)mmap(nullptr, NB * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t n = job.replay ? job.segs.size() : job.idx.size();
  for (size_t k = 0; k < n; ++k) {
    if (S->nch > MAXCH * 3 / 4 && k) break;
    alarm(60);
    tab_clear();
    S->seg[S->nseg++] = S->nch; g_start = S->nch; g_pos = 0; S->hash = 14695981039346656037ull;
    g_replay = job.replay;
    if (job.replay) { g_in = job.segs[k].data(); g_nin = uint32_t(job.segs[k].size()); } else seed_rng(job.seed, job.idx[k]);
    g_cap = size_t(1) << 28; g_limit = 40000000; g_plan.mode = 0; g_in_lib = 0;
    uint64_t s0 = g_steps; sim::new_run();
    if (verbose && n > 1) logf("==== run %zu of %zu in this process", k + 1, n);
    try { run_scenario(sc->fn); }
    catch (std::exception const& e) { violation("escaped-exception", std::string("exception reached the harness: ") + e.what()); }
    catch (...) { violation("escaped-exception", "non-standard exception reached the harness"); }
    S->steps += g_steps - s0;
    S->runs++;
  }
  fflush(nullptr);
  _exit(0);
}
struct Outcome { bool ok; std::string kind, msg, err; uint64_t hash; };
static std::string slurp(int fd) {
  std::string r; char b[65536]; lseek(fd, 0, SEEK_SET);
  for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) { r.append(b, size_t(n)); if (r.size() > (1u << 20)) break; }
  return r;
}
static std::string between(std::string const& s, char const* a, char const* b) {
  size_t i = s.find(a); if (i == std::string::npos) return "";
  i += strlen(a); size_t j = s.find_first_of(b, i); return s.substr(i, j == std::string::npos ? j : j - i);
}
static int g_err = -1;
static Outcome one(Scenario const* sc, Job const& job, char const* trace) {
  S->has_viol = 0; S->nch = 0; S->nseg = 0; S->hash = 14695981039346656037ull; S->kind[0] = S->msg[0] = 0;
  if (ftruncate(g_err, 0)) {}
  lseek(g_err, 0, SEEK_SET);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    // what the caller of the check left in the process is not part of a run: signal dispositions, mask, environment
    for (int sg : {SIGINT, SIGQUIT, SIGTERM, SIGHUP, SIGPIPE, SIGALRM, SIGUSR1, SIGUSR2, SIGCHLD}) signal(sg, SIG_DFL);
    sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr);
    clearenv(); umask(022);
    dup2(g_err, 2);
    int dn = open("/dev/null", O_RDWR); dup2(dn, 1); dup2(dn, 0);
    if (trace) { g_trace = fopen(trace, "w"); setvbuf(g_trace, nullptr, _IOLBF, 0); verbose = true; }
    child_run(sc, job);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Outcome o; o.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; o.hash = S->hash;
  if (!o.ok) {
    if (S->has_viol) { o.kind = S->kind; o.msg = S->msg; }
    else {
      std::string e = slurp(g_err); o.err = e;
      std::string a = between(e, "ERROR: AddressSanitizer: ", " \n");
      if (!a.empty()) { o.kind = "memory-" + a; o.msg = between(e, "SUMMARY: ", "\n"); }
      else if ((a = between(e, "runtime error: ", "\n")).size()) { o.kind = "undefined-behaviour"; o.msg = a; }
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.kind = "hang"; o.msg = "no progress in 60 s"; }
      else if (WIFSIGNALED(st)) { o.kind = "signal-" + std::to_string(WTERMSIG(st)); o.msg = e.substr(0, 400); }
      else { o.kind = "exit-" + std::to_string(WEXITSTATUS(st)); o.msg = e.substr(0, 400); }
    }
    for (auto& c : o.kind) if (c == ' ') c = '-';
  }
  return o;
}
static std::vector<Choices> read_choices(char const* path) {
  std::vector<Choices> segs; FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(2); }
  char word[64]; size_t n; char line[65536];
  while (fgets(line, sizeof line, f)) if (!strncmp(line, "runs ", 5)) break;
  while (fscanf(f, "%63s %zu", word, &n) == 2 && !strcmp(word, "choices")) {
    Choices v; unsigned u; for (size_t k = 0; k < n && fscanf(f, "%u", &u) == 1; ++k) v.push_back(u);
    segs.push_back(v);
  }
  fclose(f); return segs;
}
static void write_replay(char const* path, char const* id, Outcome const& o, std::vector<Choices> const& segs, char const* trace) {
  FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
  fprintf(f, "gcsim-replay 1\nproperty %s\nkind %s\nhash %016llx\nmessage %s\nruns %zu\n", id, o.kind.c_str(), (unsigned long long)o.hash, o.msg.c_str(), segs.size());
  for (auto const& ch : segs) {
    fprintf(f, "choices %zu\n", ch.size());
    for (size_t i = 0; i < ch.size(); ++i) fprintf(f, "%u%c", ch[i], i % 24 == 23 ? '\n' : ' ');
    fprintf(f, "\n");
  }
  fprintf(f, "trace\n");
  if (trace) if (FILE* t = fopen(trace, "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, t)) > 0) fwrite(b, 1, n, f); fclose(t); }
  fclose(f);
}
static Outcome replay(Scenario const* sc, std::vector<Choices> const& segs, char const* trace = nullptr) {
  Job j; j.replay = true; j.segs = segs; return one(sc, j, trace);
}
static std::vector<Choices> recorded() {
  std::vector<Choices> r;
  for (uint32_t k = 0; k < S->nseg; ++k) r.emplace_back(S->ch + S->seg[k], S->ch + (k + 1 < S->nseg ? S->seg[k + 1] : S->nch));
  return r;
}
static double now() { struct timeval t; gettimeofday(&t, nullptr); return double(t.tv_sec) + double(t.tv_usec) * 1e-6; }

int main(int argc, char** argv) {
  signal(SIGCHLD, SIG_DFL); signal(SIGPIPE, SIG_DFL);
  if (argc < 3) { fprintf(stderr, "usage: gcsim ID run|replay|shrink ...\n"); return 2; }
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_err = memfd_create("err", 0);
  Scenario const* sc = find(argv[1]);
  std::string mode = argv[2];
  if (mode == "run") {
    // run SEED FROM COUNT STEP MAXSECONDS OUTPREFIX : runs FROM, FROM+STEP, ...
    uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10), step = strtoull(argv[6], 0, 10);
    double maxs = atof(argv[7]); std::string out = argv[8];
    double t0 = now(); int fails = 0; uint64_t k = 0;
    const uint64_t BATCH = 32;
    while (k < count) {
      if (now() - t0 > maxs) break;
      Job j; j.seed = seed;
      for (uint64_t q = 0; q < BATCH && k + q < count; ++q) j.idx.push_back(from + (k + q) * step);
      Outcome o = one(sc, j, nullptr);
      uint64_t ran = S->nseg;
      k += ran ? ran : 1;
      if (o.ok) continue;
      // smallest suffix of this process's runs that still fails, in a fresh process
      if (!ran) ran = 1;
      Job best = j; best.idx.resize(ran); Outcome ob = o; bool gate = false;
      for (uint64_t w = 1; w <= ran; w = w < ran && w * 2 > ran ? ran : w * 2) {
        Job t; t.seed = seed; t.idx.assign(j.idx.begin() + long(ran - w), j.idx.begin() + long(ran));
        Outcome o1 = one(sc, t, nullptr);
        if (o1.ok) { if (w == ran) break; continue; }
        std::vector<Choices> segs = recorded();
        Outcome o2 = one(sc, t, nullptr);          // gate: same seed, same history, same violation
        gate = !o2.ok && o2.kind == o1.kind && o2.hash == o1.hash && recorded() == segs;
        best = t; ob = o1;
        std::string rp = out + ".fail" + std::to_string(fails) + ".replay";
        write_replay(rp.c_str(), sc->id, o1, segs, nullptr);
        FILE* f = fopen((out + ".fails").c_str(), "a");
        fprintf(f, "%llu\t%s\t%s\t%s\t%d\n", (unsigned long long)t.idx.back(), o1.kind.c_str(), rp.c_str(), o1.msg.c_str(), int(gate));
        fclose(f);
        ++fails;
        break;
      }
      if (!gate) {
        FILE* f = fopen((out + ".unstable").c_str(), "a");
        fprintf(f, "%llu\t%s\t%s\n", (unsigned long long)j.idx[ran - 1], ob.kind.c_str(), ob.msg.c_str());
        fclose(f);
      }
      if (fails >= 6) break;
    }
    FILE* f = fopen((out + ".stats").c_str(), "w");
    uint32_t edges = 0; for (uint32_t i = 0; i < MAXEDGE; ++i) edges += S->edge[i];
    fprintf(f, "{\"runs\":%llu,\"seeds\":%llu,\"ops\":%llu,\"steps\":%llu,\"choices\":%llu,\"states\":%u,\"switches\":%llu,\"edges\":%u,\"wall\":%.3f,\"faults\":{",
      (unsigned long long)S->runs, (unsigned long long)k, (unsigned long long)S->ops, (unsigned long long)S->steps, (unsigned long long)S->choices, S->nstates,
      (unsigned long long)S->switches, edges, now() - t0);
    bool first = true;
    for (int i = 0; i < F__N; ++i) if (S->faults[i]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_names[i], (unsigned long long)S->faults[i]); first = false; }
    fprintf(f, "}}\n"); fclose(f);
    f = fopen((out + ".states").c_str(), "wb");
    for (uint32_t i = 0; i < NSET; ++i) if (S->stateset[i]) fwrite(&S->stateset[i], 8, 1, f);
    fclose(f);
    f = fopen((out + ".edges").c_str(), "wb"); fwrite(S->edge, 1, MAXEDGE, f); fclose(f);
    return fails ? 1 : 0;
  }
  if (mode == "one") {   // one SEED IDX [trace]
    Job j; j.seed = strtoull(argv[3], 0, 10); j.idx.push_back(strtoull(argv[4], 0, 10));
    std::string tr = argc > 5 ? argv[5] : "/dev/stderr";
    Outcome o = one(sc, j, tr.c_str());
    printf("%s %s %016llx %s\n%s", o.ok ? "OK" : "FAIL", o.kind.c_str(), (unsigned long long)o.hash, o.msg.c_str(), o.err.c_str());
    return o.ok ? 0 : 1;
  }
  if (mode == "replay") {  // replay FILE [tracefile]
    Outcome o = replay(sc, read_choices(argv[3]), argc > 4 ? argv[4] : nullptr);
    printf("%s kind=%s hash=%016llx %s\n%s", o.ok ? "OK" : "FAIL", o.kind.c_str(), (unsigned long long)o.hash, o.msg.c_str(), o.err.c_str());
    return o.ok ? 0 : 1;
  }
  if (mode == "shrink") {  // shrink FILE OUT MAXSECONDS
    auto segs = read_choices(argv[3]); double maxs = atof(argv[5]); double t0 = now();
    Outcome ref = replay(sc, segs);
    if (ref.ok) { printf("NOREPRO\n"); return 3; }
    auto fails = [&](std::vector<Choices> const& c) { Outcome o = replay(sc, c); return !o.ok && o.kind == ref.kind; };
    for (size_t k = 0; k + 1 < segs.size() && now() - t0 < maxs;) { auto c = segs; c.erase(c.begin() + long(k)); if (fails(c)) segs = c; else ++k; }
    for (size_t q = segs.size(); q-- > 0;) {
      auto with = [&](Choices const& c) { auto x = segs; x[q] = c; return x; };
      Choices ch = segs[q];
      { Choices c = ch; while (!c.empty() && c.back() == 0) c.pop_back(); if (c.size() < ch.size() && fails(with(c))) ch = c; }
      bool progress = true;
      while (progress && now() - t0 < maxs) {
        progress = false;
        for (size_t len = ch.size(); len >= 1; len = len / 2) {
          for (size_t i = 0; i + len <= ch.size() && now() - t0 < maxs;) {
            Choices c(ch.begin(), ch.begin() + long(i)); c.insert(c.end(), ch.begin() + long(i + len), ch.end());
            if (c.size() < ch.size() && fails(with(c))) { ch.swap(c); progress = true; } else i += len;
          }
          if (now() - t0 > maxs) break;
        }
        for (size_t i = 0; i < ch.size() && now() - t0 < maxs; ++i) {
          if (ch[i] == 0) continue;
          for (uint32_t v : {uint32_t(0), uint32_t(1), ch[i] / 2, ch[i] - 1}) {
            if (v >= ch[i]) continue;
            auto c = ch; c[i] = v;
            if (fails(with(c))) { ch.swap(c); progress = true; break; }
          }
        }
        while (!ch.empty() && ch.back() == 0) { auto c = ch; c.pop_back(); if (fails(with(c))) ch.swap(c); else break; }
      }
      segs[q] = ch;
    }
    std::string tr = std::string(argv[4]) + ".trace";
    Outcome o = replay(sc, segs, tr.c_str());
    write_replay(argv[4], sc->id, o, segs, tr.c_str());
    unlink(tr.c_str());
    printf("%s kind=%s hash=%016llx %s\n", o.ok ? "OK" : "FAIL", o.kind.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    return o.ok ? 0 : 1;
  }
  return 2;
}
