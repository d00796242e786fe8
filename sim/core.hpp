// Core of the simulator: seeded PRNG, fault points, event log, plans, verdicts.
//
// Everything a run does is decided by its Plan (operations, fault positions);
// a Plan is produced by a PRNG from (VERIF_SEED, run number) or read from a
// replay file. Nothing in here reads a clock or depends on addresses.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

typedef std::uint64_t u64;

//---------------------------------------------------------------- PRNG
inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed ^ 0x5851f42d4c957f2dull)) {}
  u64 next() { return mix(s += 0x9e3779b97f4a7c15ull); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + int(below(u64(b - a + 1))); }
  bool chance(int num, int den) { return int(below(u64(den))) < num; }
};

//---------------------------------------------------------------- faults
enum Kind {
  K_ALLOC,  // operator new fails
  K_SCALAR, // user scalar: constructor, copy or arithmetic throws
  K_GEN,    // user generator: algebra rule, conjugation or to_string throws
  K_IDX,    // user index type: copy or comparison throws
  K_CB,     // callback passed to a traversal / transform throws
  K_COEF,   // parametric coefficient throws
  K_SINK,   // stream buffer fails or accepts only a part
  K_ES,     // user elementary space: clone, dim, n_bits throws
  K_ESC,    // elementary space factory throws
  K_VEC,    // user state vector access throws
  NKINDS
};
extern const char* const kind_name[NKINDS];

struct Fault {
  int kind;
  long nth;
};
struct Op {
  int code = 0;
  int thr = 0; // thread it belongs to
  int a[6] = {0, 0, 0, 0, 0, 0};
  int giveup = 0; // do not complete the operation after its faults
  std::vector<Fault> faults;
};
struct Plan {
  std::string scen;
  u64 seed = 0;
  std::vector<int> cfg;
  std::vector<Op> ops;
  std::vector<long> extra; // schedule (multi-threaded scenarios)
};

// Thrown by user-code fault points. The position decides about the type: plain,
// or also derived from a standard exception, so that code catching (or
// converting) one of these is noticed.
struct Injected {
  u64 id;
  int kind;
  int type;
  Injected(u64 id, int kind, int type = 0) : id(id), kind(kind), type(type) {}
  virtual ~Injected() {}
};
struct InjectedRange : std::out_of_range, Injected {
  InjectedRange(u64 id, int kind) : std::out_of_range("injected"), Injected(id, kind, 1) {}
};
struct InjectedRuntime : std::runtime_error, Injected {
  InjectedRuntime(u64 id, int kind) : std::runtime_error("injected"), Injected(id, kind, 2) {}
};
struct InjectedAlloc : std::bad_alloc, Injected {
  InjectedAlloc(u64 id, int kind) : Injected(id, kind, 3) {}
};
struct InjectedLogic : std::invalid_argument, Injected {
  InjectedLogic(u64 id, int kind) : std::invalid_argument("injected"), Injected(id, kind, 4) {}
};
bool intact(Injected const& e); // still of the type it was thrown with?
[[noreturn]] void throw_injected(Kind k);

//---------------------------------------------------------------- shared page
#ifdef SIM_MT
#define SIM_TLS __thread
#else
#define SIM_TLS
#endif

enum { MAX_OPS = 256, MAX_SW = 3000 };
struct Sw { // a switch of threads: `tid`, at its `count`-th access, yields to `to`
  int tid, to;
  u64 count;
};
struct Shared {
  volatile int state; // 0 running, 1 finished fine, 2 violation, 3 harness error
  char cls[64];
  char msg[3000];
  u64 hash;           // event log hash
  long steps;         // events logged
  int cur_op;
  long fired[NKINDS];
  long fired_total;
  long swallow_ok;
  int trivial_ok;     // fault-free runs of this scenario count as non-trivial
  long points[MAX_OPS][NKINDS]; // fault points passed by every op (1st attempt)
  long retries, giveups;
  long probes[128];    // "this rare condition was hit"
  u64 op_hash[MAX_OPS];
  // multi-threaded runs
  int threads, concurrent, first, verbose;
  long nsw, accesses;
  u64 schedule;
  int op_index[MAX_OPS]; // pages of threads: operation of the plan
};
extern SIM_TLS Shared* sh;  // page of this thread
extern Shared* main_sh;
extern Shared* mt_pages;
extern Sw* mt_sw;

//---------------------------------------------------------------- run state
struct State {
  bool window = false; // library code is running, fault points are live
  int pause = 0;       // harness bookkeeping inside a callback
  int fkind = -1;
  long fnth = 0;
  bool fired = false;
  int ftype = 0;       // type of the injected error
  unsigned off = 0;    // fault kinds that do not apply now (bit mask)
  bool inhibit = false; // faults globally off (computing reference results)
  u64 id = 0;
  long count[NKINDS] = {};
  bool verbose = false;
  int layout = 0;      // allocator layout (0: malloc)
  // accounting
  long live_blocks = 0, live_bytes = 0;
  long live_user = 0;
};
extern SIM_TLS State g;

[[noreturn]] void fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));

// Is a fault due at this point?
inline bool due(Kind k) {
  if(!g.window || g.pause || (g.off >> k & 1)) return false;
  long c = ++g.count[k];
  if(g.fkind == int(k) && c == g.fnth) {
    g.fired = true;
    return true;
  }
  return false;
}
inline void point(Kind k) {
  if(due(k)) throw_injected(k);
}

struct Pause { // no fault points in harness code called from library code
  Pause() { ++g.pause; }
  ~Pause() { --g.pause; }
};
struct Window { // library call in progress
  bool old;
  Window() : old(g.window) { g.window = true; }
  ~Window() { g.window = old; }
};

//---------------------------------------------------------------- event log
inline void log_u64(u64 x) {
  u64 h = sh->hash;
  for(int i = 0; i < 8; ++i) {
    h ^= (x >> (8 * i)) & 0xff;
    h *= 0x100000001b3ull;
  }
  sh->hash = h;
  ++sh->steps;
}
inline void log_str(const char* s, std::size_t n) {
  u64 h = sh->hash;
  for(std::size_t i = 0; i < n; ++i) {
    h ^= (unsigned char)s[i];
    h *= 0x100000001b3ull;
  }
  sh->hash = h;
  ++sh->steps;
}
inline void log_str(std::string const& s) { log_str(s.data(), s.size()); }
inline void log_dbl(double x) {
  if(x == 0) x = 0; // -0.0
  u64 u;
  std::memcpy(&u, &x, 8);
  log_u64(u);
}
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

inline void probe(int i) { ++sh->probes[i]; }

//---------------------------------------------------------------- attempts
enum Outcome { DONE, FAILED };

// Light reference to a callable
class Fn {
  void* o;
  void (*c)(void*);

public:
  template <class F>
  Fn(F& f) : o(const_cast<void*>(static_cast<void const*>(&f))), c([](void* p) { (*static_cast<F*>(p))(); }) {}
  template <class F>
  Fn(F const& f) : o(const_cast<void*>(static_cast<void const*>(&f))), c([](void* p) { (*static_cast<F const*>(p))(); }) {}
  void operator()() const { c(o); }
};

// Runs library call `f` once, with fault `ft` armed (may be null).
// Checks that an injected error is delivered intact.
// `may_absorb`: the fault may legitimately not surface as an exception.
Outcome attempt(Fault const* ft, Fn f, bool may_absorb = false);

// Runs an operation: once per planned fault, then to completion.
// after_fail() is called after every failed attempt.
// Returns false if the operation was given up.
// absorb_alloc: failing allocations may be tolerated (shrink_to_fit() is a request).
bool perform(Op const& op, Fn f, Fn after_fail, bool absorb_alloc = false);

// Library calls made without faults (reference results, checks)
template <class F> auto quiet(F&& f) -> decltype(f()) {
  struct Q {
    bool w;
    int k;
    bool fi;
    Q() : w(g.window), k(g.fkind), fi(g.fired) {
      g.window = false;
      g.fkind = -1;
    }
    ~Q() {
      g.window = w;
      g.fkind = k;
      g.fired = fi;
    }
  } q;
  return f();
}

//---------------------------------------------------------------- scenarios
struct Scenario {
  const char* name;
  void (*gen)(Rng&, Plan&, int size);       // fills cfg and ops (no faults)
  void (*run)(Plan const&);                 // executes the plan
  unsigned kinds;                           // fault kinds that apply (bit mask)
  std::string (*describe)(Plan const&, Op const&);
};
void register_scenario(Scenario const&);
Scenario const* find_scenario(std::string const& name);
#define SIM_SCENARIO(ident, name, gen, run, kinds, desc)                       \
  namespace {                                                                  \
  struct ident##_reg {                                                         \
    ident##_reg() {                                                            \
      sim::register_scenario(sim::Scenario{name, gen, run, kinds, desc});      \
    }                                                                          \
  } ident##_reg_instance;                                                      \
  }

} // namespace sim

#endif
