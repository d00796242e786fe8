// Driver of the single-threaded simulator: runs plans in forked children,
// chooses workloads and faults, minimises and replays failures.
#include "core.hpp"
#include "mt.hpp"

#include <typeinfo>

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
         "detect_stack_use_after_return=1:handle_abort=0:print_summary=1:"
         "max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=16:"
         "detect_odr_violation=0:verify_asan_link_order=0:color=never:symbolize=0";
}
#endif

namespace sim {

SIM_TLS Shared* sh;
SIM_TLS State g;
Shared* main_sh;
Shared* mt_pages;
Sw* mt_sw;
const char* const kind_name[NKINDS] = {"alloc", "scalar", "generator", "index", "callback",
                                       "coefficient", "sink", "space", "factory", "vector"};

static void put(char* dst, std::size_t n, const char* fmt, va_list ap) { vsnprintf(dst, n, fmt, ap); }

static void set_failure(int state, const char* cls, const char* fmt, va_list ap) {
  ++g.pause;
  if(main_sh->state == 0) {
    const char* pre = "";
#ifdef SIM_MT
    if(mt_note_failure()) pre = "mt-";
#endif
    put(main_sh->msg, sizeof main_sh->msg, fmt, ap);
    if(!strncmp(cls, "mt-", 3)) pre = "";
    snprintf(main_sh->cls, sizeof main_sh->cls, "%s%s", pre, cls);
    main_sh->state = state;
  }
}
static void set_failure(int state, const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  set_failure(state, cls, fmt, ap);
  va_end(ap);
}
void fail(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  set_failure(2, cls, fmt, ap);
  va_end(ap);
  _exit(3);
}
void harness_error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  set_failure(3, "harness", fmt, ap);
  va_end(ap);
  _exit(4);
}
void trace(const char* fmt, ...) {
  if(!g.verbose) return;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(stdout, fmt, ap);
  va_end(ap);
  fputc('\n', stdout);
  fflush(stdout);
}

static std::map<std::string, Scenario>& registry() {
  static std::map<std::string, Scenario> r;
  return r;
}
void register_scenario(Scenario const& s) { registry()[s.name] = s; }
Scenario const* find_scenario(std::string const& name) {
  auto it = registry().find(name);
  return it == registry().end() ? nullptr : &it->second;
}

} // namespace sim

//------------------------------------------------------------------ allocator
// Mode 0: malloc/free (ASan checks them). Layout modes: an arena in which the
// position and the previous contents of every block are chosen by a seed.
namespace {
using namespace sim;
char* arena = nullptr;
const std::size_t arena_size = std::size_t(1) << 30;
const std::size_t ncls = 24; // size classes 16<<i
struct FreeList {
  std::vector<char*>* v;
};
// free lists kept outside of the accounted heap
char* fl[ncls][4096];
int fl_n[ncls];
std::size_t bump_lo = 0, bump_hi = arena_size;
u64 arena_rng = 1;
int arena_mode = 0;

inline u64 arnd() { return mix(arena_rng += 0x9e3779b97f4a7c15ull); }

struct Head {
  std::uint32_t cls;
  std::uint32_t magic;
  u64 size;
};
void* arena_alloc(std::size_t n) {
  std::size_t need = n + sizeof(Head);
  unsigned c = 0;
  while((std::size_t(16) << c) < need) ++c;
  char* p = nullptr;
  if(c >= ncls) return nullptr;
  if(fl_n[c] > 0 && (arena_mode != 2 || (arnd() & 1))) {
    int k = fl_n[c] - 1;                                  // LIFO: immediate reuse
    if(arena_mode == 3) k = int(arnd() % u64(fl_n[c]));   // shuffled
    p = fl[c][k];
    fl[c][k] = fl[c][fl_n[c] - 1];
    --fl_n[c];
  } else {
    std::size_t sz = std::size_t(16) << c;
    if(bump_lo + 2 * sz + 8192 > bump_hi) return nullptr;
    bool lo = arena_mode == 1 ? true : arena_mode == 2 ? false : (arnd() & 1);
    std::size_t gap = (arena_mode == 3) ? (arnd() % 8) * 16 : 0;
    if(lo) {
      bump_lo += gap;
      p = arena + bump_lo;
      bump_lo += sz;
    } else {
      bump_hi -= sz + gap;
      p = arena + bump_hi;
    }
  }
  Head* h = reinterpret_cast<Head*>(p);
  h->cls = c;
  h->magic = 0xA110CA7Eu;
  h->size = n;
  u64 r = arnd();
  int style = int(r & 3); // fresh memory: zeros, ones, random bytes, small numbers
  unsigned char* d = reinterpret_cast<unsigned char*>(h + 1);
  std::size_t m = n < 4096 ? n : 4096;
  if(style == 0)
    memset(d, 0, m);
  else if(style == 1)
    memset(d, 0xff, m);
  else if(style == 2)
    for(std::size_t i = 0; i < m; ++i) d[i] = (unsigned char)(arnd() >> 11);
  else
    for(std::size_t i = 0; i < m; ++i) d[i] = (i & 7) ? 0 : (unsigned char)(1 + (arnd() & 7));
  return d;
}
void arena_free(void* q) {
  Head* h = reinterpret_cast<Head*>(q) - 1;
  if(h->magic != 0xA110CA7Eu) fail("bad-free", "a block was released twice or never allocated");
  h->magic = 0xDEADBEEFu;
  std::size_t m = h->size < 4096 ? h->size : 4096;
  memset(q, int(arnd() & 0xff), m);
  unsigned c = h->cls;
  if(fl_n[c] < 4096) fl[c][fl_n[c]++] = reinterpret_cast<char*>(h);
}

// Overwrites a part of the unused stack
__attribute__((noinline)) void scribble_some() {
  volatile u64 buf[320];
  u64 r = arnd();
  for(std::size_t i = 0; i < 320; ++i) buf[i] = arena_mode == 1 ? ~u64(0) : arena_mode == 2 ? 1 : r + i * 0x9E3779B97F4A7C15ull;
  asm volatile("" : : "r"(buf) : "memory");
}

} // namespace
// Units compiled with -finstrument-functions call this at the beginning of every function of the library:
// whatever the functions called from there leave uninitialised has contents chosen by the layout.
extern "C" __attribute__((no_instrument_function, noinline)) void __cyg_profile_func_enter(void*, void*) {
  if(!arena_mode || !g.window || g.pause) return;
  u64 buf[320];
  u64 v = arena_mode == 1 ? ~u64(0) : arena_mode == 2 ? 1 : arnd();
  u64 step = arena_mode == 3 ? 0x9E3779B97F4A7C15ull : 0;
  for(std::size_t i = 0; i < 320; ++i) buf[i] = v + i * step;
  asm volatile("" : : "r"(buf) : "memory");
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}
namespace {

void* do_new(std::size_t n, bool nothrow) {
  if(arena_mode && g.window && !g.pause) scribble_some();
  if(!nothrow && g.window && !g.pause) {
    if(due(K_ALLOC)) throw std::bad_alloc();
  }
  if(n > (std::size_t(1) << 31)) {
    if(sh && g.window && !g.pause) fail("runaway-allocation", "attempt to allocate %zu bytes", n);
    throw std::bad_alloc();
  }
  void* p;
#ifdef SIM_MT
  if(mt_owns_all()) {
    p = mt_alloc(n);
    if(!p) harness_error("arena exhausted");
    g.live_bytes += long(n);
    ++g.live_blocks;
    return p;
  }
#endif
  if(arena_mode) {
    p = arena_alloc(n);
    if(!p) harness_error("arena exhausted");
    g.live_bytes += long(n);
  } else {
    p = malloc(n ? n : 1);
    if(!p) {
      if(nothrow) return nullptr;
      throw std::bad_alloc();
    }
    g.live_bytes += long(malloc_usable_size(p));
  }
  ++g.live_blocks;
  return p;
}
void do_delete(void* p) {
  if(!p) return;
  --g.live_blocks;
#ifdef SIM_MT
  if(mt_owns(p)) {
    g.live_bytes -= long(mt_size(p));
    mt_free(p);
    return;
  }
#endif
  if(arena && static_cast<char*>(p) >= arena && static_cast<char*>(p) < arena + arena_size) {
    g.live_bytes -= long((reinterpret_cast<Head*>(p) - 1)->size);
    arena_free(p);
  } else {
    g.live_bytes -= long(malloc_usable_size(p));
    free(p);
  }
}
} // namespace

void* operator new(std::size_t n) { return do_new(n, false); }
void* operator new[](std::size_t n) { return do_new(n, false); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return do_new(n, true); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return do_new(n, true); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, std::size_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { do_delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { do_delete(p); }

namespace sim {

// Overwrites the unused part of the stack
__attribute__((noinline)) void scribble_stack() {
  volatile unsigned char buf[48 * 1024];
  u64 r = arnd();
  for(std::size_t i = 0; i < sizeof buf; ++i) {
    if((i & 7) == 0) r = mix(r + i);
    buf[i] = (unsigned char)(arena_mode == 1 ? 0xff : arena_mode == 2 ? ((i & 7) ? 0 : 1) : (r >> (8 * (i & 7))));
  }
  asm volatile("" : : "r"(buf) : "memory");
}
void between_ops() {
#ifdef SIM_MT
  mt_boundary();
#endif
  if(arena_mode) scribble_stack();
}

//------------------------------------------------------------------ attempts
bool intact(Injected const& e) {
  switch(e.type) {
  case 1: return typeid(e) == typeid(InjectedRange);
  case 2: return typeid(e) == typeid(InjectedRuntime);
  case 3: return typeid(e) == typeid(InjectedAlloc);
  case 4: return typeid(e) == typeid(InjectedLogic);
  default: return typeid(e) == typeid(Injected);
  }
}
void throw_injected(Kind k) {
  u64 t = mix(u64(g.fnth) * 16 + u64(k)) % 8;
  g.ftype = t > 4 ? 0 : int(t);
  switch(g.ftype) {
  case 1: throw InjectedRange(g.id, int(k));
  case 2: throw InjectedRuntime(g.id, int(k));
  case 3: throw InjectedAlloc(g.id, int(k));
  case 4: throw InjectedLogic(g.id, int(k));
  default: throw Injected(g.id, int(k));
  }
}

Outcome attempt(Fault const* ft, Fn f, bool may_absorb) {
  std::memset(g.count, 0, sizeof g.count);
  g.fired = false;
  g.fkind = (ft && !g.inhibit) ? ft->kind : -1;
  g.fnth = ft ? ft->nth : 0;
  ++g.id;
  struct Reset {
    ~Reset() {
      g.fkind = -1;
      g.window = false;
      g.pause = 0;
    }
  } reset;
  // where objects on the stack are is a part of the memory layout, too
  volatile char* shift = arena_mode ? static_cast<char*>(__builtin_alloca(16 * (1 + arnd() % 64))) : nullptr;
  asm volatile("" : : "r"(shift) : "memory");
  try {
    Window w;
    f();
  } catch(Injected const& e) {
    g.window = false;
    if(e.id != g.id || !g.fired)
      fail("stale-error", "an error injected earlier (%llu) came out of a later call (%llu)",
           (unsigned long long)e.id, (unsigned long long)g.id);
    if(e.kind != g.fkind) fail("wrong-error", "injected error of kind %s changed into kind %s",
           kind_name[g.fkind], kind_name[e.kind]);
    if(!intact(e)) fail("wrong-error", "injected error of kind %s was delivered as an object of another type", kind_name[g.fkind]);
    ++sh->fired[e.kind];
    ++sh->fired_total;
    log_u64(0xF000 + e.kind);
    return FAILED;
  } catch(std::bad_alloc const&) {
    g.window = false;
    if(!g.fired || g.fkind != K_ALLOC)
      fail("wrong-error", g.fired ? "injected %s error was replaced by std::bad_alloc"
                                  : "unprovoked std::bad_alloc (fault kind %s)",
           g.fkind >= 0 ? kind_name[g.fkind] : "none");
    ++sh->fired[K_ALLOC];
    ++sh->fired_total;
    log_u64(0xF000 + K_ALLOC);
    return FAILED;
  } catch(std::exception const& e) {
    g.window = false;
    if(g.fired)
      fail("wrong-error", "injected %s error was replaced by std::exception: %s",
           kind_name[g.fkind], e.what());
    throw; // the library's own error: the operation decides
  } catch(...) {
    g.window = false;
    fail("wrong-error", "unknown exception out of a library call");
  }
  g.window = false;
  if(g.fired && !may_absorb)
    fail("swallowed-error", "injected %s error (point %ld) was swallowed: the call returned normally",
         kind_name[g.fkind], g.fnth);
  if(g.fired) {
    ++sh->fired[g.fkind];
    ++sh->fired_total;
    ++sh->swallow_ok;
  }
  return DONE;
}

bool perform(Op const& op, Fn f, Fn after_fail, bool absorb_alloc) {
  bool first = true;
  for(auto const& ft : op.faults) {
    Outcome o = attempt(&ft, f, absorb_alloc && ft.kind == K_ALLOC);
    if(first) {
      for(int k = 0; k < NKINDS; ++k)
        sh->points[sh->cur_op][k] += g.count[k];
      first = false;
    }
    if(o == DONE) return true; // fault point not reached
    after_fail();
    ++sh->retries;
  }
  if(op.giveup && !op.faults.empty()) {
    ++sh->giveups;
    return false;
  }
  Outcome o = attempt(nullptr, f);
  if(first)
    for(int k = 0; k < NKINDS; ++k)
      sh->points[sh->cur_op][k] += g.count[k];
  if(o != DONE) fail("spurious-error", "operation failed without a fault");
  return true;
}

//------------------------------------------------------------------ children
struct Result {
  int state; // 1 fine, 2 violation, 3 harness error
  std::string cls, msg;
  u64 hash;
};

struct Mode {
  int repeat = 1;
  int layout = 0;
};

static int err_fd = -1;

static void on_terminate() {
  const char* what = g.fired ? kind_name[g.fkind >= 0 ? g.fkind : 0] : "none";
  set_failure(2, "terminate", "std::terminate() was called (injected fault: %s)", what);
  _exit(3);
}
static void on_sig(int s) {
  set_failure(2, s == SIGABRT ? "abort" : s == SIGXCPU ? "hang" : "crash", "killed by signal %d", s);
  _exit(3);
}
} // namespace sim

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_on_error() {
  using namespace sim;
  if(sh && sh->state == 0) {
    snprintf(sh->cls, sizeof sh->cls, "asan-%s", __asan_get_report_description());
    snprintf(sh->msg, sizeof sh->msg, "memory error: %s (%s of %zu bytes)", __asan_get_report_description(),
             __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size());
    sh->state = 2;
    _exit(3);
  }
}
#endif

namespace sim {

static Plan const* child_plan;
static int child_repeat;

static void workload() {
  Plan const& plan = *child_plan;
  Scenario const& sc = registry().at(plan.scen);
  long b[8], l[8], by[8];
  for(int r = 0; r < child_repeat; ++r) {
    try {
      sc.run(plan);
    } catch(Injected const& e) {
      fail("stray-error", "an injected %s error escaped from a place where none was due", kind_name[e.kind]);
    } catch(std::exception const& e) {
      g.window = false;
      fail("unexpected-exception", "unexpected %s: %s", typeid(e).name(), e.what());
    }
    b[r] = g.live_user;
    l[r] = g.live_blocks;
    by[r] = g.live_bytes;
    if(g.live_user != 0)
      fail("user-object-leak", "%ld user-supplied objects are still alive at the end of the workload", g.live_user);
  }
  if(child_repeat > 2) {
    int n = child_repeat;
    if(l[n - 1] != l[n - 2])
      fail("leak", "repeating the workload grows the number of live blocks: %ld -> %ld -> %ld (bytes %ld -> %ld -> %ld)",
           l[n - 3], l[n - 2], l[n - 1], by[n - 3], by[n - 2], by[n - 1]);
    (void)b;
  }
  sh->state = 1;
  fflush(stdout);
  _exit(0);
}

// Addresses and contents of the stack are part of the memory layout
static void on_own_stack(void (*f)()) {
  static ucontext_t from, to;
  std::size_t size = 16 << 20;
  void* st = mmap(reinterpret_cast<void*>(0x300000000000), size, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if(st == MAP_FAILED) harness_error("mmap");
  getcontext(&to);
  to.uc_stack.ss_sp = st;
  to.uc_stack.ss_size = size;
  to.uc_link = nullptr;
  makecontext(&to, f, 0);
  swapcontext(&from, &to);
}

static void child(Plan const& plan, Mode const& mode) {
  struct rlimit rl;
  rl.rlim_cur = 20;
  rl.rlim_max = 25;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGXCPU, on_sig);
  signal(SIGABRT, on_sig);
#if !defined(__SANITIZE_ADDRESS__)
  signal(SIGSEGV, on_sig);
  signal(SIGBUS, on_sig);
  signal(SIGFPE, on_sig);
#endif
  std::set_terminate(on_terminate);
#ifdef SIM_MT
  mt_init();
#endif
  if(mode.layout) {
    arena = static_cast<char*>(mmap(reinterpret_cast<void*>(0x310000000000), arena_size, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
    if(arena == MAP_FAILED) harness_error("mmap");
    arena_mode = 1 + (mode.layout - 1) % 3;
    arena_rng = mix(u64(mode.layout));
    g.layout = mode.layout;
  }
  child_plan = &plan;
  child_repeat = mode.repeat;
  if(mode.layout) on_own_stack(workload);
  workload();
}

static Result execute(Plan const& plan, Mode const& mode) {
  memset(static_cast<void*>(sh), 0, sizeof *sh);
  sh->hash = 0xcbf29ce484222325ull;
  fflush(stdout);
  pid_t pid = fork();
  if(pid < 0) {
    fprintf(stderr, "fork failed: %s\n", strerror(errno));
    exit(2);
  }
  if(pid == 0) {
    if(err_fd >= 0) dup2(err_fd, 2);
    child(plan, mode);
  }
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result r;
  r.state = sh->state;
  r.cls = sh->cls;
  r.msg = sh->msg;
  r.hash = sh->hash;
  if(r.state == 0 || (r.state == 1 && st != 0)) {
    r.state = 2;
    r.cls = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU ? "hang" : "crash") : "exit";
    if(sh->concurrent) r.cls = "mt-" + r.cls;
    r.msg = "child ended with status " + std::to_string(st);
  }
  if(r.state == 2) r.msg = "[op " + std::to_string(sh->cur_op) + "] " + r.msg;
  return r;
}

//------------------------------------------------------------------ layouts
struct Verdict {
  int state = 1;
  std::string cls, msg;
  u64 hash = 0;
};
// Runs a plan in the given mode; several layouts are compared with each other
struct CheckMode {
  int repeat = 1;
  std::vector<int> layouts; // empty: plain run
};
static long total_runs = 0;
static Verdict run_plan(Plan const& p, CheckMode const& cm) {
  Verdict v;
  Mode m;
  m.repeat = cm.repeat;
  if(cm.layouts.empty()) {
    ++total_runs;
    Result r = execute(p, m);
    v.state = r.state;
    v.cls = r.cls;
    v.msg = r.msg;
    v.hash = r.hash;
    return v;
  }
  std::vector<u64> oh;
  int n_ops = int(p.ops.size());
  u64 first_hash = 0;
  std::string first_out;
  for(std::size_t i = 0; i < cm.layouts.size(); ++i) {
    m.layout = cm.layouts[i];
    ++total_runs;
    Result r = execute(p, m);
    v.hash = r.hash;
    if(r.state == 3) {
      v.state = 3;
      v.cls = r.cls;
      v.msg = r.msg;
      return v;
    }
    std::string out = r.state == 1 ? "" : r.cls;
    if(i == 0) {
      first_hash = r.hash;
      first_out = out;
      oh.assign(sh->op_hash, sh->op_hash + n_ops);
      v.state = r.state;
      v.cls = r.cls;
      v.msg = r.msg;
    } else if(out != first_out || r.hash != first_hash) {
      int d = 0;
      while(d < n_ops && d < MAX_OPS && oh[d] == sh->op_hash[d]) ++d;
      v.state = 2;
      v.cls = "layout-dependence";
      v.msg = "[op " + std::to_string(d) + "] results differ between memory layouts " +
              std::to_string(cm.layouts[0]) + " and " + std::to_string(m.layout) +
              (out.empty() ? "" : ": " + r.msg);
      v.hash = first_hash;
      return v;
    }
  }
  return v;
}

//------------------------------------------------------------------ replay files
static void write_plan(FILE* f, Plan const& p, CheckMode const& cm) {
  fprintf(f, "scenario %s\nseed %llu\nrepeat %d\n", p.scen.c_str(), (unsigned long long)p.seed, cm.repeat);
  if(!cm.layouts.empty()) {
    fprintf(f, "layouts");
    for(int l : cm.layouts) fprintf(f, " %d", l);
    fprintf(f, "\n");
  }
  fprintf(f, "cfg");
  for(int c : p.cfg) fprintf(f, " %d", c);
  fprintf(f, "\n");
  if(!p.extra.empty()) {
    fprintf(f, "schedule");
    for(long x : p.extra) fprintf(f, " %ld", x);
    fprintf(f, "\n");
  }
  Scenario const& sc = registry().at(p.scen);
  for(auto const& o : p.ops) {
    fprintf(f, "op %d", o.code);
    for(int x : o.a) fprintf(f, " %d", x);
    fprintf(f, " %d %zu", o.giveup, o.faults.size());
    for(auto const& ft : o.faults) fprintf(f, " %s %ld", kind_name[ft.kind], ft.nth);
    fprintf(f, " %d", o.thr);
    std::string d = sc.describe ? sc.describe(p, o) : "";
    fprintf(f, "   # %s\n", d.c_str());
  }
}
static bool read_plan(const char* path, Plan& p, CheckMode& cm, std::string& cls, u64& hash) {
  FILE* f = fopen(path, "r");
  if(!f) return false;
  static char line[1 << 18];
  while(fgets(line, sizeof line, f)) {
    if(char* h = strchr(line, '#')) *h = 0;
    std::vector<std::string> w;
    for(char* t = strtok(line, " \t\n"); t; t = strtok(nullptr, " \t\n")) w.push_back(t);
    if(w.empty()) continue;
    if(w[0] == "scenario")
      p.scen = w[1];
    else if(w[0] == "seed")
      p.seed = strtoull(w[1].c_str(), nullptr, 10);
    else if(w[0] == "repeat")
      cm.repeat = atoi(w[1].c_str());
    else if(w[0] == "layouts") {
      for(std::size_t i = 1; i < w.size(); ++i) cm.layouts.push_back(atoi(w[i].c_str()));
    } else if(w[0] == "cfg") {
      for(std::size_t i = 1; i < w.size(); ++i) p.cfg.push_back(atoi(w[i].c_str()));
    } else if(w[0] == "schedule") {
      for(std::size_t i = 1; i < w.size(); ++i) p.extra.push_back(atol(w[i].c_str()));
    } else if(w[0] == "op") {
      Op o;
      o.code = atoi(w[1].c_str());
      for(int i = 0; i < 6; ++i) o.a[i] = atoi(w[2 + i].c_str());
      o.giveup = atoi(w[8].c_str());
      int nf = atoi(w[9].c_str());
      for(int i = 0; i < nf; ++i) {
        Fault ft;
        ft.kind = -1;
        for(int k = 0; k < NKINDS; ++k)
          if(w[10 + 2 * i] == kind_name[k]) ft.kind = k;
        ft.nth = atol(w[11 + 2 * i].c_str());
        o.faults.push_back(ft);
      }
      if(w.size() > std::size_t(10 + 2 * nf)) o.thr = atoi(w[std::size_t(10 + 2 * nf)].c_str());
      p.ops.push_back(o);
    } else if(w[0] == "expect") {
      cls = w[1];
      hash = strtoull(w[2].c_str(), nullptr, 16);
    }
  }
  fclose(f);
  return true;
}

//------------------------------------------------------------------ statistics
struct Stats {
  long others = 0, workloads = 0, runs = 0, faulty_runs = 0, steps = 0, retries = 0, giveups = 0, swallow_ok = 0;
  long fired[NKINDS] = {};
  long points[NKINDS] = {};
  long probes[128] = {};
  std::set<u64> distinct;
  std::map<std::string, long> per_scen;
  long ops = 0;
  long threads = 0, switches = 0, accesses = 0;
  std::set<u64> interleavings;
};
static Stats S;
static void account(Plan const& p) {
  ++S.runs;
  S.per_scen[p.scen]++;
  S.steps += sh->steps;
  S.retries += sh->retries;
  S.giveups += sh->giveups;
  S.swallow_ok += sh->swallow_ok;
  S.ops += long(p.ops.size());
  for(int k = 0; k < NKINDS; ++k) S.fired[k] += sh->fired[k];
  for(int i = 0; i < 128; ++i) S.probes[i] += sh->probes[i];
  if(sh->threads) {
    S.threads += sh->threads;
    S.switches += sh->nsw;
    S.accesses += sh->accesses;
    if(sh->nsw) S.interleavings.insert(mix(p.seed ^ sh->schedule));
    if(!sh->trivial_ok) {
      if(sh->fired_total > 0) ++S.faulty_runs;
      return;
    }
  }
  if(sh->fired_total > 0) ++S.faulty_runs;
  if(sh->fired_total > 0 || sh->trivial_ok) S.distinct.insert(sh->hash);
}

//------------------------------------------------------------------ minimiser
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
static Plan minimise(Plan best, CheckMode& cm, std::string const& cls) {
  double t_end = now() + 12;
  long tries = 0;
  auto same = [&](Plan const& q) {
    if(now() > t_end || tries > 900) return false;
    ++tries;
    Verdict v = run_plan(q, cm);
    return v.state == 2 && v.cls == cls;
  };
  bool progress = true;
  while(progress && now() < t_end) {
    progress = false;
    // drop chunks of operations
    for(std::size_t len = std::max<std::size_t>(1, best.ops.size() / 2); len >= 1; len /= 2) {
      for(std::size_t i = 0; i + len <= best.ops.size() && best.ops.size() > 1;) {
        Plan q = best;
        q.ops.erase(q.ops.begin() + long(i), q.ops.begin() + long(i + len));
        if(same(q)) {
          best = q;
          progress = true;
        } else
          i += len;
      }
      if(len == 1) break;
    }
    // drop switches
    if(!best.extra.empty() && best.extra[0] == 9) {
      std::size_t n = (best.extra.size() - 2) / 3;
      for(std::size_t len = std::max<std::size_t>(1, n / 2); len >= 1; len /= 2) {
        for(std::size_t i = 0; i + len <= (best.extra.size() - 2) / 3;) {
          Plan q = best;
          q.extra.erase(q.extra.begin() + 2 + 3 * long(i), q.extra.begin() + 2 + 3 * long(i + len));
          if(same(q)) {
            best = q;
            progress = true;
          } else
            i += len;
        }
        if(len == 1) break;
      }
    }
    // drop faults
    for(std::size_t i = 0; i < best.ops.size(); ++i)
      for(std::size_t j = 0; j < best.ops[i].faults.size();) {
        Plan q = best;
        q.ops[i].faults.erase(q.ops[i].faults.begin() + long(j));
        if(same(q)) {
          best = q;
          progress = true;
        } else
          ++j;
      }
    for(std::size_t i = 0; i < best.ops.size(); ++i) {
      if(best.ops[i].giveup) {
        Plan q = best;
        q.ops[i].giveup = 0;
        if(same(q)) {
          best = q;
          progress = true;
        }
      }
      // earlier fault points
      for(std::size_t j = 0; j < best.ops[i].faults.size(); ++j)
        for(long n : {1L, best.ops[i].faults[j].nth / 2, best.ops[i].faults[j].nth - 1}) {
          if(n < 1 || n >= best.ops[i].faults[j].nth) continue;
          Plan q = best;
          q.ops[i].faults[j].nth = n;
          if(same(q)) {
            best = q;
            progress = true;
            break;
          }
        }
      // simpler arguments
      for(int j = 0; j < 6; ++j)
        if(best.ops[i].a[j] != 0)
          for(int x : {0, best.ops[i].a[j] / 2, best.ops[i].a[j] / 16}) {
            if(x == best.ops[i].a[j]) continue;
            Plan q = best;
            q.ops[i].a[j] = x;
            if(same(q)) {
              best = q;
              progress = true;
              break;
            }
          }
    }
  }
  return best;
}

//------------------------------------------------------------------ batch
struct Args {
  std::string prop, out, replaydir;
  std::vector<std::string> scens;
  u64 seed = 1;
  int worker = 0, nworkers = 1, variants = 6, repeat = 1, layouts = 0, size = 0;
  long count = 100;
  double seconds = 1e9;
  std::vector<std::string> classes; // violations that count (empty: all); "x*": prefix
  bool counts(std::string const& c) const {
    if(classes.empty()) return true;
    for(auto const& k : classes)
      if(k == c || (k.back() == '*' && c.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0)) return true;
    return false;
  }
};

static void write_stats(Args const& a, double t, std::string const& viol, std::vector<std::string> const& samples) {
  FILE* f = fopen((a.out + ".json").c_str(), "w");
  fprintf(f, "{\"others\": %ld, \"workloads\": %ld, \"runs\": %ld, \"faulty_runs\": %ld, \"events\": %ld, \"ops\": %ld, \"retries\": %ld, \"giveups\": %ld, \"absorbed_ok\": %ld, \"seconds\": %.3f,\n",
          S.others, S.workloads, S.runs, S.faulty_runs, S.steps, S.ops, S.retries, S.giveups, S.swallow_ok, t);
  if(S.threads)
    fprintf(f, "\"threads\": %ld, \"switches\": %ld, \"accesses\": %ld, \"interleavings\": %zu,\n", S.threads, S.switches, S.accesses,
            S.interleavings.size());
  fprintf(f, "\"fired\": {");
  for(int k = 0; k < NKINDS; ++k) fprintf(f, "%s\"%s\": %ld", k ? ", " : "", kind_name[k], S.fired[k]);
  fprintf(f, "},\n\"points\": {");
  for(int k = 0; k < NKINDS; ++k) fprintf(f, "%s\"%s\": %ld", k ? ", " : "", kind_name[k], S.points[k]);
  fprintf(f, "},\n\"probes\": [");
  for(int i = 0; i < 128; ++i) fprintf(f, "%s%ld", i ? ", " : "", S.probes[i]);
  fprintf(f, "],\n\"scenarios\": {");
  bool first = true;
  for(auto const& s : S.per_scen) {
    fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", s.first.c_str(), s.second);
    first = false;
  }
  fprintf(f, "},\n\"samples\": [");
  for(std::size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", samples[i].c_str());
  fprintf(f, "],\n\"violation\": \"%s\"}\n", viol.c_str());
  fclose(f);
  f = fopen((a.out + ".hashes").c_str(), "wb");
  for(u64 h : S.distinct) fwrite(&h, 8, 1, f);
  fclose(f);
}

static std::string sample_of(Plan const& p) {
  std::string s = p.scen + "#" + std::to_string(p.seed) + ":";
  Scenario const& sc = registry().at(p.scen);
  for(auto const& o : p.ops) {
    std::string d = sc.describe ? sc.describe(p, o) : std::to_string(o.code);
    s += " " + d;
    for(auto const& ft : o.faults) s += " !" + std::string(kind_name[ft.kind]) + "@" + std::to_string(ft.nth);
    s += ";";
    if(s.size() > 900) {
      s += " ...";
      break;
    }
  }
  std::string r;
  for(char c : s)
    if(c != '"' && c != '\\' && c != '\n') r += c;
  return r;
}

static int report(Args const& a, Plan const& p, CheckMode cm, Verdict const& v, double t0,
                  std::vector<std::string> const& samples) {
  // gate: the same plan must fail the same way again
  for(int i = 0; i < 2; ++i) {
    Verdict v2 = run_plan(p, cm);
    if(v2.state != 2 || v2.cls != v.cls || v2.hash != v.hash) {
      fprintf(stderr, "gate: failure of %s seed %llu does not reproduce: %s/%llx vs %s/%llx\n%s\n%s\n", p.scen.c_str(),
              (unsigned long long)p.seed, v.cls.c_str(), (unsigned long long)v.hash, v2.cls.c_str(),
              (unsigned long long)v2.hash, v.msg.c_str(), v2.msg.c_str());
      write_stats(a, now() - t0, "", samples);
      return 5;
    }
  }
  if(!cm.layouts.empty() && cm.layouts.size() > 2 && v.cls == "layout-dependence") {
    // keep the pair that differs
    for(std::size_t i = 1; i < cm.layouts.size(); ++i) {
      CheckMode c2 = cm;
      c2.layouts = {cm.layouts[0], cm.layouts[i]};
      Verdict v2 = run_plan(p, c2);
      if(v2.state == 2 && v2.cls == v.cls) {
        cm = c2;
        break;
      }
    }
  }
  Plan m = p;
  if(!p.extra.empty()) { // the switches that took place
    run_plan(p, cm);
    Plan q = p;
    q.extra = {9, sh->first};
    for(long k = 0; k < sh->nsw; ++k) {
      q.extra.push_back(mt_sw[k].tid);
      q.extra.push_back(long(mt_sw[k].count));
      q.extra.push_back(mt_sw[k].to);
    }
    Verdict vq = run_plan(q, cm);
    if(vq.state == 2 && vq.cls == v.cls) m = q;
  }
  m = minimise(m, cm, v.cls);
  Verdict vm = run_plan(m, cm);
  if(vm.state != 2) {
    m = p;
    vm = run_plan(m, cm);
  }
  std::string path = a.replaydir + "/" + a.prop + "-" + p.scen + "-" + std::to_string(p.seed) + ".replay";
  FILE* f = fopen(path.c_str(), "w");
  fprintf(f, "# %s violated: %s\n# %s\nproperty %s\nexpect %s %llx\n", a.prop.c_str(), vm.cls.c_str(), vm.msg.c_str(),
          a.prop.c_str(), vm.cls.c_str(), (unsigned long long)vm.hash);
  write_plan(f, m, cm);
  fprintf(f, "# original: %zu operations; minimised: %zu operations\n", p.ops.size(), m.ops.size());
  fclose(f);
  write_stats(a, now() - t0, path, samples);
  printf("FOUND %s %s: %s\n", path.c_str(), vm.cls.c_str(), vm.msg.c_str());
  return 1;
}

// picks faults for a plan, using the numbers of fault points seen in a fault-free run
static void choose_faults(Plan& q, long const (*pts)[NKINDS], Rng& r, unsigned kinds) {
  std::vector<std::pair<int, int>> cand; // (op, kind)
  int n = int(std::min<std::size_t>(q.ops.size(), MAX_OPS));
  // swarm: a random subset of kinds for this run
  unsigned sub = 0;
  for(int k = 0; k < NKINDS; ++k)
    if((kinds >> k & 1) && r.chance(2, 3)) sub |= 1u << k;
  for(int i = 0; i < n; ++i)
    for(int k = 0; k < NKINDS; ++k)
      if((sub >> k & 1) && pts[i][k] > 0) cand.emplace_back(i, k);
  if(cand.empty())
    for(int i = 0; i < n; ++i)
      for(int k = 0; k < NKINDS; ++k)
        if((kinds >> k & 1) && pts[i][k] > 0) cand.emplace_back(i, k);
  if(cand.empty()) return;
  int nops = r.range(1, 1 + int(r.below(4)));
  if(r.chance(1, 5)) nops = int(cand.size()) / 2 + 1;
  for(int t = 0; t < nops; ++t) {
    auto c = cand[r.below(cand.size())];
    Op& o = q.ops[std::size_t(c.first)];
    if(o.faults.size() >= 3) continue;
    long m = pts[c.first][c.second];
    long nth;
    int w = int(r.below(8));
    if(w == 0)
      nth = 1;
    else if(w == 1)
      nth = m;
    else if(w == 2)
      nth = std::max(1L, m - long(r.below(4)));
    else
      nth = 1 + long(r.below(u64(m)));
    o.faults.push_back(Fault{c.second, nth});
    if(r.chance(1, 4)) o.giveup = 1;
  }
}

// multi-threaded plans: another schedule, sometimes faults as well
static void vary(Plan& q, long const (*pts)[NKINDS], Rng& r, unsigned kinds) {
#ifdef SIM_MT
  random_schedule(r, q);
#endif
  if(r.chance(2, 3)) choose_faults(q, pts, r, kinds);
}

static int batch(Args const& a) {
  double t0 = now();
  std::vector<std::string> samples;
  for(long i = 0; i < a.count && now() - t0 < a.seconds; ++i) {
    u64 seed = mix(a.seed * 1000003ull + mix(u64(a.worker) + u64(a.nworkers) * u64(i))) >> 1;
    Rng r(seed);
    Plan p;
    p.scen = a.scens[u64(i * a.nworkers + a.worker) % a.scens.size()];
    p.seed = seed;
    Scenario const& sc = registry().at(p.scen);
    sc.gen(r, p, a.size);
    if(p.ops.size() > MAX_OPS) p.ops.resize(MAX_OPS);
    ++S.workloads;
    CheckMode cm;
    cm.repeat = a.repeat;
    for(int l = 0; l < a.layouts; ++l) cm.layouts.push_back(1 + l + 3 * int(r.below(1000)));
    Verdict v = run_plan(p, cm);
    if(a.layouts) sh->trivial_ok = 1;
    account(p);
    if(v.state == 3) {
      fprintf(stderr, "harness error: %s (scenario %s seed %llu)\n", v.msg.c_str(), p.scen.c_str(), (unsigned long long)p.seed);
      return 6;
    }
    if(v.state == 2) {
      if(a.counts(v.cls)) return report(a, p, cm, v, t0, samples);
      ++S.others; // another property's business
      continue;
    }
    static long pts[MAX_OPS][NKINDS];
    memcpy(pts, sh->points, sizeof pts);
    long tot = 0;
    for(std::size_t o = 0; o < p.ops.size(); ++o)
      for(int k = 0; k < NKINDS; ++k) {
        if(!(sc.kinds >> k & 1)) pts[o][k] = 0;
        pts[o][k] /= a.repeat > 0 ? a.repeat : 1; // counted in every repetition
        tot += pts[o][k];
        S.points[k] += pts[o][k];
      }
    if(tot == 0 && p.extra.empty()) continue;
    for(int w = 0; w < a.variants; ++w) {
      Plan q = p;
      if(q.extra.empty())
        choose_faults(q, pts, r, sc.kinds);
      else
        vary(q, pts, r, sc.kinds);
      Verdict v2 = run_plan(q, cm);
      if(a.layouts) sh->trivial_ok = 1;
      account(q);
      if(samples.size() < 3 && w == 1) samples.push_back(sample_of(q));
      if(v2.state == 3) {
        fprintf(stderr, "harness error: %s (scenario %s seed %llu)\n", v2.msg.c_str(), q.scen.c_str(), (unsigned long long)q.seed);
        FILE* f = fopen((a.out + ".harness").c_str(), "w");
        write_plan(f, q, cm);
        fclose(f);
        return 6;
      }
      if(v2.state == 2) {
        if(a.counts(v2.cls)) return report(a, q, cm, v2, t0, samples);
        ++S.others;
      }
    }
  }
  write_stats(a, now() - t0, "", samples);
  return 0;
}

static int replay(const char* path, bool verbose) {
  Plan p;
  CheckMode cm;
  std::string cls;
  u64 hash = 0;
  if(!read_plan(path, p, cm, cls, hash)) {
    fprintf(stderr, "cannot read %s\n", path);
    return 2;
  }
  g.verbose = verbose;
  Verdict v = run_plan(p, cm);
  printf("%s: state %d class %s hash %llx\n%s\n", path, v.state, v.cls.empty() ? "-" : v.cls.c_str(),
         (unsigned long long)v.hash, v.msg.c_str());
  if(v.state == 2) {
    if(!cls.empty() && (v.cls != cls || v.hash != hash)) {
      printf("differs from the recorded failure %s %llx\n", cls.c_str(), (unsigned long long)hash);
      return 4;
    }
    return 1;
  }
  return v.state == 1 ? 0 : 6;
}

// Every seed twice: verdicts and event hashes must agree
static int determinism(Args const& a) {
  long n = 0;
  for(long i = 0; i < a.count; ++i) {
    u64 seed = mix(a.seed * 7919ull + u64(i) * u64(a.nworkers) + u64(a.worker)) >> 1;
    Rng r(seed);
    Plan p;
    p.scen = a.scens[u64(i) % a.scens.size()];
    p.seed = seed;
    Scenario const& sc = registry().at(p.scen);
    sc.gen(r, p, a.size);
    if(p.ops.size() > MAX_OPS) p.ops.resize(MAX_OPS);
    CheckMode cm;
    if(a.layouts) cm.layouts = {1 + int(r.below(3000))};
    run_plan(p, cm);
    static long pts[MAX_OPS][NKINDS];
    memcpy(pts, sh->points, sizeof pts);
    if(p.extra.empty())
      choose_faults(p, pts, r, sc.kinds);
    else
      vary(p, pts, r, sc.kinds);
    Verdict v1 = run_plan(p, cm), v2 = run_plan(p, cm);
    ++n;
    printf("%s %llu %d %s %llx\n", p.scen.c_str(), (unsigned long long)seed, v1.state, v1.cls.empty() ? "-" : v1.cls.c_str(), (unsigned long long)v1.hash);
    if(v1.state != v2.state || v1.cls != v2.cls || v1.hash != v2.hash) {
      printf("NONDETERMINISTIC\n");
      return 5;
    }
  }
  return 0;
}

} // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  // same addresses in every process (if that is not permitted, go on without)
  int pers = personality(0xffffffff);
  if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  main_sh = sh;
#ifdef SIM_MT
  mt_pages = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * 2 * MAXT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  mt_sw = static_cast<Sw*>(mmap(nullptr, sizeof(Sw) * MAX_SW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
#endif
  std::string cmd = argc > 1 ? argv[1] : "";
  Args a;
  bool verbose = false;
  std::string file;
  for(int i = 2; i < argc; ++i) {
    std::string k = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if(k == "-v")
      verbose = true;
    else if(k == "--prop")
      a.prop = val();
    else if(k == "--out")
      a.out = val();
    else if(k == "--replaydir")
      a.replaydir = val();
    else if(k == "--scen") {
      std::string s = val(), t;
      for(char c : s + ",")
        if(c == ',') {
          if(!t.empty()) a.scens.push_back(t);
          t.clear();
        } else
          t += c;
    } else if(k == "--seed")
      a.seed = strtoull(val().c_str(), nullptr, 10);
    else if(k == "--worker")
      a.worker = atoi(val().c_str());
    else if(k == "--nworkers")
      a.nworkers = atoi(val().c_str());
    else if(k == "--count")
      a.count = atol(val().c_str());
    else if(k == "--variants")
      a.variants = atoi(val().c_str());
    else if(k == "--repeat")
      a.repeat = atoi(val().c_str());
    else if(k == "--layouts")
      a.layouts = atoi(val().c_str());
    else if(k == "--size")
      a.size = atoi(val().c_str());
    else if(k == "--classes") {
      std::string s = val(), t;
      for(char c : s + ",")
        if(c == ',') {
          if(!t.empty()) a.classes.push_back(t);
          t.clear();
        } else
          t += c;
    } else if(k == "--seconds")
      a.seconds = atof(val().c_str());
    else
      file = k;
  }
  if(cmd == "batch") {
    if(!verbose) err_fd = open((a.out + ".stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    return batch(a);
  }
  if(cmd == "replay") return replay(file.c_str(), verbose);
  if(cmd == "determinism") return determinism(a);
  if(cmd == "list") {
    for(auto const& s : registry()) printf("%s\n", s.first.c_str());
    return 0;
  }
  fprintf(stderr, "usage: sim batch|replay|determinism|list ...\n");
  return 2;
}
