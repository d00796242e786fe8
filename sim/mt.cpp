// Scheduler, race detector and thread-sanitizer runtime of the multi-threaded
// simulator (see mt.hpp). Compiled without instrumentation.
#include "mt.hpp"

#include <algorithm>
#include <linux/futex.h>
#include <pthread.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

extern "C" {
extern char __data_start[], _end[], __executable_start[];
}

namespace sim {

typedef std::uintptr_t uptr;
typedef std::uint32_t u32;

//------------------------------------------------------------------ memory
// One bump region per thread (0: main). Nothing is ever reused, so that stale
// accesses are seen, and addresses do not depend on the schedule.
static const uptr A0 = 0x200000000000ull;
static const uptr RSIZE = uptr(192) << 20;
static const uptr ASIZE = RSIZE * (MAXT + 1);
static const uptr S0 = 0x210000000000ull; // shadow of the arena
static const uptr M0 = 0x230000000000ull; // allocation map
static const uptr G0 = 0x240000000000ull; // shadow of the globals
static bool have_arena = false;
static uptr bump[MAXT + 1];
static uptr glo, ghi;

enum { PR, PW, AR, AW, NACC }; // plain / atomic, read / write
struct Cell {                  // last accesses to 8 bytes: clock << 16 | operation << 8 | bytes
  u64 rec[MAXT][NACC];
};

struct Thread {
  int id;
  int go;
  int state; // 0 ready, 1 waiting, 2 finished
  void const* wait;
  u32 vc[MAXT], relf[MAXT], acqf[MAXT];
  bool has_relf;
  u64 count;   // interesting accesses
  u64 quantum; // since the last switch
  uptr stack[64];
  uptr pc;
  int depth;
  int op;
  Shared* page;
  State g_end;
  std::vector<std::pair<u64, int>> sw; // explicit switches
  std::size_t swp;
};
static Thread T[MAXT];
static int nT = 0;
static int phase = 0; // 0 setup, 1 solo, 2 concurrent, 3 afterwards
static __thread Thread* me;
static int main_go;
static MtBody* body;
static Shared* pages; // MAXT solo pages, MAXT concurrent ones
static u64 steps;
static const u64 MAX_STEPS = 60000000;
static const u64 MAX_QUANTUM = 400000;
static const long MAX_SWITCHES = MAX_SW;

bool mt_owns(void const* p) { return uptr(p) - A0 < ASIZE && have_arena; }

bool mt_owns_all() { return have_arena; }

static void* map(uptr at, uptr n) {
  void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if(p != reinterpret_cast<void*>(at)) harness_error("mmap of %lx failed", (unsigned long)at);
  return p;
}

struct Head {
  u64 size;
  u64 magic;
};
static const u64 LIVE = 0xA110CA7EA110CA7Eull, DEAD = 0xDEADBEEFDEADBEEFull;

static inline unsigned char* amap(uptr a) { return reinterpret_cast<unsigned char*>(M0 + ((a - A0) >> 3)); }
static inline Cell* cell(uptr a) {
  if(a - A0 < ASIZE) return reinterpret_cast<Cell*>(S0) + ((a - A0) >> 3);
  return reinterpret_cast<Cell*>(G0) + ((a - glo) >> 3);
}

void* mt_alloc(std::size_t n) {
  int r = me ? me->id + 1 : 0;
  uptr sz = (n + 7) & ~uptr(7);
  uptr a = bump[r] + sizeof(Head);
  if(a + sz + 16 > A0 + RSIZE * uptr(r + 1)) return nullptr;
  bump[r] = a + ((sz + 15) & ~uptr(15)) + 16;
  Head* h = reinterpret_cast<Head*>(a) - 1;
  h->size = n;
  h->magic = LIVE;
  unsigned char* m = amap(a);
  for(uptr i = 0; i < n / 8; ++i) m[i] = 8;
  if(n & 7) m[n / 8] = (unsigned char)(n & 7);
  std::memset(reinterpret_cast<void*>(a), 0xBE, n < 4096 ? n : 4096);
  return reinterpret_cast<void*>(a);
}
std::size_t mt_size(void const* p) { return (reinterpret_cast<Head const*>(p) - 1)->size; }

static void on_access(uptr a, uptr n, int kind, const char* what);

void mt_free(void* p) {
  Head* h = reinterpret_cast<Head*>(p) - 1;
  if(h->magic != LIVE) fail("bad-free", "a block was released twice or never allocated");
  uptr a = uptr(p), n = h->size;
  if(me && n) on_access(a, n, PW, "release");
  h->magic = DEAD;
  std::memset(amap(a), 16, (n + 7) / 8);
  std::memset(p, 0xDB, n < 4096 ? n : 4096);
}

//------------------------------------------------------------------ scheduler
static void futex(int* a, int op, int v) { syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
static void wake(int* go) {
  __atomic_store_n(go, 1, __ATOMIC_SEQ_CST);
  futex(go, FUTEX_WAKE, 1);
}
static void sleep_on(int* go) {
  while(!__atomic_load_n(go, __ATOMIC_SEQ_CST)) futex(go, FUTEX_WAIT, 0);
  __atomic_store_n(go, 0, __ATOMIC_SEQ_CST);
}

static int mode;
static Rng srng(0);
static u64 sp1, sp2;           // parameters of the mode
static std::vector<u64> marks; // global switch points (mode 1)
static std::size_t markp;

static int next_ready(int from) {
  for(int k = 1; k <= nT; ++k) {
    int j = (from + k) % nT;
    if(T[j].state == 0 && j != from) return j;
  }
  return -1;
}
static int random_ready(int from) {
  int c[MAXT], n = 0;
  for(int j = 0; j < nT; ++j)
    if(j != from && T[j].state == 0) c[n++] = j;
  return n ? c[srng.below(u64(n))] : -1;
}
static void transfer(int to) {
  Thread* self = me;
  self->quantum = 0;
  T[to].quantum = 0;
  wake(&T[to].go);
  sleep_on(&self->go);
}
static void voluntary(int to) {
  long n = main_sh->nsw;
  if(n >= MAX_SWITCHES) return;
  mt_sw[n].tid = me->id;
  mt_sw[n].to = to;
  mt_sw[n].count = me->count;
  main_sh->nsw = n + 1;
  transfer(to);
}

// A point at which the thread may be replaced by another one
static inline void point_of_switch(bool hot, bool boundary = false) {
  Thread* t = me;
  ++t->count;
  if(phase != 2) return;
  ++t->quantum;
  if(++steps > MAX_STEPS) fail("hang", "no end after %llu memory accesses", (unsigned long long)steps);
  if(mode == 9) {
    if(t->swp < t->sw.size() && t->sw[t->swp].first <= t->count) {
      int to = t->sw[t->swp++].second;
      if(to < nT && to != t->id && T[to].state == 0)
        voluntary(to);
      else {
        to = next_ready(t->id);
        if(to >= 0) voluntary(to);
      }
      return;
    }
  } else if(mode == 1) {
    if(markp < marks.size() && steps >= marks[markp]) {
      ++markp;
      int to = random_ready(t->id);
      if(to >= 0) voluntary(to);
      return;
    }
  } else if(mode == 2) {
    if((srng.next() & sp1) == 0) {
      int to = random_ready(t->id);
      if(to >= 0) voluntary(to);
      return;
    }
  } else if(mode == 3) {
    if((srng.next() & (hot ? sp1 : sp2)) == 0) {
      int to = random_ready(t->id);
      if(to >= 0) voluntary(to);
      return;
    }
  } else if(mode == 4) {
    if(boundary && srng.below(sp1) == 0) {
      int to = random_ready(t->id);
      if(to >= 0) voluntary(to);
      return;
    }
  }
  if(t->quantum > MAX_QUANTUM) {
    int to = next_ready(t->id);
    if(to >= 0) transfer(to);
    t->quantum = 0;
  }
}
void mt_boundary() {
  Thread* t = me;
  if(!t) return;
  t->op = sh->cur_op;
  if(body) body->op_boundary(t->id, t->op);
  point_of_switch(false, true);
}
static void yield_now() {
  if(!me || phase != 2) return;
  ++me->count;
  if(++steps > MAX_STEPS) fail("hang", "no end after %llu memory accesses", (unsigned long long)steps);
  int to = next_ready(me->id);
  if(to >= 0) transfer(to);
}
static void block_on(void const* a) {
  if(!me || phase != 2) fail("deadlock", "a lock is taken twice by the same thread");
  me->state = 1;
  me->wait = a;
  int to = next_ready(me->id);
  if(to < 0) fail("deadlock", "all threads wait for each other");
  transfer(to);
}
static void unblock(void const* a) {
  for(int j = 0; j < nT; ++j)
    if(T[j].state == 1 && T[j].wait == a) T[j].state = 0;
}

//------------------------------------------------------------------ races
static std::string where_am_i() {
  std::string s;
  char b[40];
  snprintf(b, sizeof b, " +%lx", (unsigned long)(me->pc - uptr(__executable_start)));
  s += b;
  for(int d = me->depth - 1; d >= 0 && d >= me->depth - 8; --d) {
    if(d >= 64) continue;
    snprintf(b, sizeof b, " +%lx", (unsigned long)(me->stack[d] - uptr(__executable_start)));
    s += b;
  }
  return s;
}
static const char* const acc_name[NACC] = {"read", "write", "atomic read", "atomic write"};

static void race(uptr a, uptr n, int kind, const char* what, int other, int okind, u64 rec) {
  ++g.pause;
  char region[64];
  if(a - A0 < ASIZE) {
    int r = int((a - A0) / RSIZE);
    snprintf(region, sizeof region, "heap block of %s", r == 0 ? "the set-up phase" : r == 1 + me->id ? "this thread" : "another thread");
  } else
    snprintf(region, sizeof region, "global variable at +%lx", (unsigned long)(a - uptr(__executable_start)));
  std::string w = where_am_i();
  fail("race", "%s of %lu bytes by thread %d (its operation %d) is unordered with a %s by thread %d (its operation %d); %s; call stack%s",
       what ? what : acc_name[kind], (unsigned long)n, me->id, me->op, acc_name[okind], other, int(rec >> 8 & 0xff), region, w.c_str());
}

static inline bool interesting(uptr a) { return a - A0 < ASIZE || a - glo < ghi - glo; }

static void on_access(uptr a, uptr n, int kind, const char* what) {
  Thread* t = me;
  if(a - A0 < ASIZE) {
    // inside of a living block?
    uptr x = a, left = n;
    while(left) {
      uptr o = x & 7, k = std::min(left, 8 - o);
      unsigned m = *amap(x);
      if(m == 16 || o + k > m) {
        std::string w = where_am_i();
        fail("bad-access", "%s of %lu bytes %s (thread %d, its operation %d); call stack%s", what ? what : acc_name[kind], (unsigned long)n,
             m == 16 ? "in a block that was already released" : "outside of any allocated block", t->id, t->op, w.c_str());
      }
      x += k;
      left -= k;
    }
  }
  if(phase != 2) {
    ++t->count;
    return;
  }
  bool hot = false;
  {
    Cell* c = cell(a);
    for(int j = 0; j < nT && !hot; ++j)
      if(j != t->id) hot = c->rec[j][PW] | c->rec[j][AW] | ((kind & 1) ? c->rec[j][PR] | c->rec[j][AR] : 0);
  }
  point_of_switch(hot);
  // look after the switch: what other threads did meanwhile counts
  uptr x = a, left = n;
  u64 stamp = u64(t->vc[t->id]) << 16 | u64(t->op & 0xff) << 8;
  while(left) {
    uptr o = x & 7, k = std::min(left, 8 - o);
    u64 mask = ((u64(1) << k) - 1) << o;
    Cell* c = cell(x);
    for(int j = 0; j < nT; ++j) {
      if(j == t->id) continue;
      for(int q = 0; q < NACC; ++q) {
        u64 r = c->rec[j][q];
        if(!(r & mask & 0xff)) continue;
        bool conflict = kind == PR ? q == PW || q == AW : kind == PW ? true : kind == AR ? q == PW : q == PW || q == PR;
        if(conflict && (r >> 16) > t->vc[j]) race(a, n, kind, what, j, q, r);
      }
    }
    u64& mine = c->rec[t->id][kind];
    if((mine >> 16) == t->vc[t->id])
      mine = stamp | ((mine | mask) & 0xff);
    else
      mine = stamp | mask;
    x += k;
    left -= k;
  }
}
static inline __attribute__((always_inline)) void access(void const* p, uptr n, int kind) {
  if(!me) return;
  uptr a = uptr(p);
  if(!interesting(a) || !n) return;
  me->pc = uptr(__builtin_return_address(0));
  on_access(a, n, kind, nullptr);
}

//------------------------------------------------------------------ synchronisation
struct Sync {
  void const* key;
  u32 vc[MAXT];
};
static Sync* syncs;
static const uptr NSYNC = uptr(1) << 20;
static Sync* sync_for(void const* a, bool make) {
  uptr h = mix(uptr(a)) & (NSYNC - 1);
  for(uptr k = 0; k < NSYNC; ++k, h = (h + 1) & (NSYNC - 1)) {
    if(syncs[h].key == a) return &syncs[h];
    if(!syncs[h].key) {
      if(!make) return nullptr;
      syncs[h].key = a;
      return &syncs[h];
    }
  }
  harness_error("too many synchronisation variables");
}
static inline void join(u32* a, u32 const* b) {
  for(int j = 0; j < MAXT; ++j) a[j] = std::max(a[j], b[j]);
}
static void acquire(void const* a, bool relaxed = false) {
  Sync* s = sync_for(a, false);
  if(!s) return;
  join(relaxed ? me->acqf : me->vc, s->vc);
}
static void tick() { ++me->vc[me->id]; }
// rmw: continues the release sequence
static void release(void const* a, bool rmw, bool relaxed) {
  u32 const* src = relaxed ? (me->has_relf ? me->relf : nullptr) : me->vc;
  Sync* s = sync_for(a, src != nullptr);
  if(!s) return;
  if(!rmw) std::memset(s->vc, 0, sizeof s->vc);
  if(src) join(s->vc, src);
  if(!relaxed) tick();
}
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static inline bool live() { return me && phase == 2; }
static inline __attribute__((always_inline)) void a_load(void const* a, uptr n, int mo) {
  if(!me) return;
  me->pc = uptr(__builtin_return_address(0));
  if(interesting(uptr(a))) on_access(uptr(a), n, AR, nullptr);
  if(phase == 2) acquire(a, !is_acq(mo));
}
static inline __attribute__((always_inline)) void a_store(void const* a, uptr n, int mo) {
  if(!me) return;
  me->pc = uptr(__builtin_return_address(0));
  if(interesting(uptr(a))) on_access(uptr(a), n, AW, nullptr);
  if(phase == 2) release(a, false, !is_rel(mo));
}
static inline __attribute__((always_inline)) void a_rmw(void const* a, uptr n, int mo) {
  if(!me) return;
  me->pc = uptr(__builtin_return_address(0));
  if(interesting(uptr(a))) on_access(uptr(a), n, AW, nullptr);
  if(phase == 2) {
    acquire(a, !is_acq(mo));
    release(a, true, !is_rel(mo));
  }
}
static void a_fence(int mo) {
  if(!live()) return;
  if(is_acq(mo)) join(me->vc, me->acqf);
  if(is_rel(mo)) {
    std::memcpy(me->relf, me->vc, sizeof me->vc);
    me->has_relf = true;
    tick();
  }
}

// Locks
struct Lock {
  void const* key;
  int owner;   // -1: free, MAXT: main
  int depth;
  int readers;
  u32 vc[MAXT], rvc[MAXT];
};
static Lock locks[1024];
static Lock& lock_at(void const* a) {
  uptr h = mix(uptr(a)) & 1023;
  for(int k = 0; k < 1024; ++k, h = (h + 1) & 1023) {
    if(locks[h].key == a) return locks[h];
    if(!locks[h].key) {
      locks[h].key = a;
      locks[h].owner = -1;
      return locks[h];
    }
  }
  harness_error("too many locks");
}
static int self_id() { return me && phase == 2 ? me->id : MAXT; }
static bool lock_write(void const* a, bool recursive, bool wait) {
  if(live()) point_of_switch(true);
  Lock& l = lock_at(a);
  int s = self_id();
  for(;;) {
    if(l.owner == s && recursive) break;
    if(l.owner < 0 && l.readers == 0) break;
    if(!wait) return false;
    block_on(a);
  }
  l.owner = s;
  ++l.depth;
  if(live()) {
    join(me->vc, l.vc);
    join(me->vc, l.rvc);
  }
  return true;
}
static bool lock_read(void const* a, bool wait) {
  if(live()) point_of_switch(true);
  Lock& l = lock_at(a);
  while(l.owner >= 0) {
    if(!wait) return false;
    block_on(a);
  }
  ++l.readers;
  if(live()) join(me->vc, l.vc);
  return true;
}
static void unlock(void const* a) {
  Lock& l = lock_at(a);
  if(l.owner >= 0) {
    if(--l.depth > 0) return;
    l.depth = 0;
    l.owner = -1;
    if(live()) {
      std::memcpy(l.vc, me->vc, sizeof l.vc);
      std::memset(l.rvc, 0, sizeof l.rvc);
      tick();
    }
  } else if(l.readers > 0) {
    --l.readers;
    if(live()) {
      join(l.rvc, me->vc);
      tick();
    }
  }
  unblock(a);
  if(live()) point_of_switch(true);
}

//------------------------------------------------------------------ runs
std::vector<std::vector<int>> ops_of_threads(Plan const& p, int n) {
  std::vector<std::vector<int>> r{std::size_t(n)};
  for(std::size_t k = 0; k < p.ops.size(); ++k)
    if(p.ops[k].thr < n) r[std::size_t(p.ops[k].thr)].push_back(int(k));
  return r;
}

void mt_init() {
  map(A0, ASIZE);
  map(S0, ASIZE * 16);
  map(M0, ASIZE / 8);
  glo = uptr(__data_start) & ~uptr(7);
  ghi = uptr(_end);
  map(G0, ((ghi - glo) / 8 + 1) * sizeof(Cell));
  syncs = static_cast<Sync*>(mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for(int r = 0; r <= MAXT; ++r) bump[r] = A0 + RSIZE * uptr(r) + 64;
  pages = mt_pages;
  have_arena = true;
}

bool mt_note_failure() {
  if(!me) return false;
  main_sh->cur_op = me->page && me->page->cur_op < MAX_OPS ? me->page->op_index[me->page->cur_op] : 0;
  for(int t = 0; t < nT; ++t) main_sh->hash = mix(main_sh->hash ^ pages[MAXT + t].hash);
  return phase == 2;
}

static void guarded(int t) {
  try {
    body->run(t);
  } catch(Injected const& e) {
    fail("stray-error", "an injected %s error escaped from a place where none was due", kind_name[e.kind]);
  } catch(std::exception const& e) {
    g.window = false;
    fail("unexpected-exception", "unexpected %s: %s", typeid(e).name(), e.what());
  }
}

static pthread_key_t end_key;
static void at_end(void*) { // after the destructors of thread_local objects
  Thread* t = me;
  t->g_end = g;
  me = nullptr;
  t->state = 2;
  int to = -1;
  bool waiting = false;
  for(int k = 1; k <= nT; ++k) {
    int j = (t->id + k) % nT;
    if(T[j].state == 0 && to < 0) to = j;
    if(T[j].state == 1) waiting = true;
  }
  if(to >= 0)
    wake(&T[to].go);
  else if(waiting) {
    me = t;
    fail("deadlock", "all remaining threads wait for each other");
  } else
    wake(&main_go);
}
static void start_page(Thread& t, Shared* pg) {
  t.page = pg;
  sh = pg;
  bool v = main_sh->verbose;
  g = State();
  g.verbose = v;
}
static void* thread_main(void* arg) {
  Thread* t = static_cast<Thread*>(arg);
  sleep_on(&t->go);
  pthread_setspecific(end_key, t);
  start_page(*t, pages + MAXT + t->id);
  me = t;
  if(g.verbose) trace("--- thread %d starts", t->id);
  guarded(t->id);
  return nullptr;
}

void mt_run(Plan const& plan, int n, MtBody& b) {
  nT = n;
  body = &b;
  auto own = ops_of_threads(plan, n);
  for(int t = 0; t < 2 * MAXT; ++t) {
    std::memset(static_cast<void*>(pages + t), 0, sizeof(Shared));
    pages[t].hash = 0xcbf29ce484222325ull;
    if(t % MAXT < n)
      for(std::size_t k = 0; k < own[std::size_t(t % MAXT)].size() && k < MAX_OPS; ++k) pages[t].op_index[k] = own[std::size_t(t % MAXT)][k];
  }
  main_sh->verbose = g.verbose;
  // every thread alone
  u64 total = 0;
  for(int t = 0; t < n; ++t) {
    Thread& x = T[t];
    x.id = t;
    x.count = 0;
    x.depth = 0;
    x.op = 0;
    fflush(stdout);
    pid_t pid = fork();
    if(pid < 0) harness_error("fork failed");
    if(pid == 0) {
      start_page(x, pages + t);
      g.verbose = false;
      phase = 1;
      me = &x;
      guarded(t);
      x.page->accesses = long(x.count);
      x.page->state = 1;
      _exit(0);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0) {}
    if(main_sh->state != 0) _exit(3);
    if(pages[t].state != 1) fail("solo-crash", "thread %d, running alone, ended with status %d", t, st);
    total += u64(pages[t].accesses);
  }
  // all together
  std::vector<long> const& e = plan.extra;
  mode = e.empty() ? 0 : int(e[0]);
  srng = Rng(e.size() > 1 ? u64(e[1]) : 1);
  int first = int(srng.below(u64(n)));
  for(int t = 0; t < n; ++t) {
    T[t].sw.clear();
    T[t].swp = 0;
  }
  marks.clear();
  markp = 0;
  if(mode == 1) {
    long k = e.size() > 2 ? e[2] : 2;
    for(long i = 0; i < k; ++i) marks.push_back(srng.below(total + 1));
    std::sort(marks.begin(), marks.end());
  } else if(mode == 2 || mode == 4)
    sp1 = e.size() > 2 ? u64(e[2]) : 15;
  else if(mode == 3) {
    sp1 = e.size() > 2 ? u64(e[2]) : 3;
    sp2 = e.size() > 3 ? u64(e[3]) : 1023;
  } else if(mode == 9) {
    first = e.size() > 1 ? int(e[1]) % n : 0;
    for(std::size_t k = 2; k + 2 < e.size(); k += 3)
      if(e[k] < n) T[e[k]].sw.emplace_back(u64(e[k + 1]), int(e[k + 2]));
  }
  main_sh->first = first;
  main_sh->nsw = 0;
  steps = 0;
  pthread_key_create(&end_key, at_end);
  pthread_t th[MAXT];
  phase = 2;
  main_sh->concurrent = 1;
  for(int t = 0; t < n; ++t) {
    Thread& x = T[t];
    x.id = t;
    x.go = 0;
    x.state = 0;
    x.count = x.quantum = 0;
    x.depth = 0;
    x.op = 0;
    x.has_relf = false;
    for(int j = 0; j < MAXT; ++j) x.vc[j] = x.relf[j] = x.acqf[j] = 0;
    x.vc[t] = 1;
    if(pthread_create(&th[t], nullptr, thread_main, &x)) harness_error("pthread_create failed");
  }
  wake(&T[first].go);
  sleep_on(&main_go);
  phase = 3;
  for(int t = 0; t < n; ++t) pthread_join(th[t], nullptr);
  body = nullptr;
  for(int t = 0; t < n; ++t) std::vector<std::pair<u64, int>>().swap(T[t].sw);
  std::vector<u64>().swap(marks);
  // results
  // Which allocations an operation makes may depend on what other threads did
  // before (tables that are filled in once), and so may the place of a failure.
  bool same = true;
  for(auto const& o : plan.ops)
    for(auto const& f : o.faults) same = same && f.kind != K_ALLOC;
  u64 sw = u64(first);
  for(long k = 0; k < main_sh->nsw; ++k) sw = mix(sw ^ u64(mt_sw[k].tid) << 48 ^ u64(mt_sw[k].to) << 56 ^ mt_sw[k].count);
  for(int t = 0; t < n; ++t) {
    Shared &s = pages[t], &c = pages[MAXT + t];
    int k = 0, m = int(own[std::size_t(t)].size());
    while(k < m && k < MAX_OPS && s.op_hash[k] == c.op_hash[k]) ++k;
    if(same && ((k < m && k < MAX_OPS) || s.hash != c.hash)) {
      main_sh->cur_op = k < m ? own[std::size_t(t)][std::size_t(k)] : 0;
      fail("mt-result", "operation %d of thread %d has another result than in a solitary run (threads were switched %ld times)", k, t, main_sh->nsw);
    }
    main_sh->hash = mix(main_sh->hash ^ c.hash);
    for(int q = 0; q < NKINDS; ++q) {
      main_sh->fired[q] += c.fired[q];
      for(int i = 0; i < m && i < MAX_OPS; ++i) main_sh->points[c.op_index[i]][q] += c.points[i][q];
    }
    for(int q = 0; q < 128; ++q) main_sh->probes[q] += c.probes[q];
    main_sh->fired_total += c.fired_total;
    main_sh->swallow_ok += c.swallow_ok;
    main_sh->steps += c.steps;
    main_sh->retries += c.retries;
    main_sh->giveups += c.giveups;
    main_sh->accesses += long(T[t].count);
    g.live_user += T[t].g_end.live_user;
    g.live_blocks += T[t].g_end.live_blocks;
    g.live_bytes += T[t].g_end.live_bytes;
  }
  main_sh->threads = n;
  main_sh->schedule = sw;
  log_u64(sw);
  main_sh->trivial_ok = main_sh->nsw > 0;
}

MtMark mt_mark() {
  MtMark m;
  for(int r = 0; r <= MAXT; ++r) m.bump[r] = bump[r];
  return m;
}

namespace {
struct Blk {
  uptr a, n;
  bool seen;
};
struct Finder {
  Blk* b;
  std::size_t n;
  std::size_t* todo;
  std::size_t nt;
  void scan(uptr from, uptr to) {
    for(uptr q = (from + 7) & ~uptr(7); q + 8 <= to; q += 8) {
      uptr v = *reinterpret_cast<uptr const volatile*>(q);
      if(v - A0 >= ASIZE) continue;
      std::size_t lo = 0, hi = n; // last block with a <= v
      while(lo < hi) {
        std::size_t k = (lo + hi) / 2;
        if(b[k].a <= v) lo = k + 1;
        else hi = k;
      }
      if(!lo) continue;
      Blk& x = b[lo - 1];
      if(v - x.a > x.n || x.seen) continue;
      x.seen = true;
      todo[nt++] = lo - 1;
    }
  }
};
int tls_size(dl_phdr_info* i, std::size_t, void* out) {
  for(int k = 0; k < i->dlpi_phnum; ++k)
    if(i->dlpi_phdr[k].p_type == PT_TLS) *static_cast<uptr*>(out) = i->dlpi_phdr[k].p_memsz + i->dlpi_phdr[k].p_align;
  return 1; // the executable comes first
}
} // namespace

// Blocks allocated since the mark that nothing refers to any more. What static
// objects hold (tables that are filled in once, say) is not lost.
long mt_lost(MtMark const& m) {
  std::size_t n = 0;
  for(int r = 0; r <= MAXT; ++r)
      for(uptr q = A0 + RSIZE * uptr(r) + 64; q < bump[r];) {
        Head* h = reinterpret_cast<Head*>(q);
        ++n;
        q += sizeof(Head) + ((((h->size + 7) & ~u64(7)) + 15) & ~u64(15)) + 16;
      }
  Finder f;
  std::size_t bytes = (n + 1) * (sizeof(Blk) + sizeof(std::size_t));
  void* mem = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(mem == MAP_FAILED) harness_error("mmap failed");
  f.b = static_cast<Blk*>(mem);
  f.todo = reinterpret_cast<std::size_t*>(f.b + n + 1);
  f.n = f.nt = 0;
  for(int r = 0; r <= MAXT; ++r)
    for(uptr q = A0 + RSIZE * uptr(r) + 64; q < bump[r];) {
      Head* h = reinterpret_cast<Head*>(q);
      uptr a = q + sizeof(Head);
      if(h->magic == LIVE) {
        bool old = q < m.bump[r];
        f.b[f.n] = Blk{a, h->size, old};
        if(old) f.todo[f.nt++] = f.n;
        ++f.n;
      }
      q += sizeof(Head) + ((((h->size + 7) & ~u64(7)) + 15) & ~u64(15)) + 16;
    }
  f.scan(glo, ghi);
  uptr tls = 0;
  dl_iterate_phdr(tls_size, &tls);
  uptr fs = uptr(__builtin_thread_pointer());
  f.scan(fs - tls, fs);
  while(f.nt) {
    Blk const& x = f.b[f.todo[--f.nt]];
    f.scan(x.a, x.a + x.n);
  }
  long lost = 0;
  for(std::size_t k = 0; k < f.n; ++k) lost += !f.b[k].seen;
  munmap(mem, bytes);
  return lost;
}

void random_schedule(Rng& r, Plan& p) {
  long seed = long(r.next() >> 8);
  switch(r.below(16)) {
  case 0: p.extra = {0, seed}; break;
  case 1: case 2: case 3: case 4: p.extra = {1, seed, r.range(1, 3)}; break;
  case 5: case 6: p.extra = {1, seed, r.range(4, 40)}; break;
  case 7: case 8: case 9: p.extra = {2, seed, (1L << r.range(2, 12)) - 1}; break;
  case 10: case 11: case 12: case 13: p.extra = {3, seed, (1L << r.range(0, 4)) - 1, (1L << r.range(7, 15)) - 1}; break;
  default: p.extra = {4, seed, r.range(1, 4)};
  }
}

} // namespace sim

//------------------------------------------------------------------ thread-sanitizer interface
using namespace sim;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  if(!me) return;
  int d = me->depth++;
  if(d < 64) me->stack[d] = uptr(pc);
}
void __tsan_func_exit() {
  if(me && me->depth > 0) --me->depth;
}
#define ACC(N)                                                                  \
  void __tsan_read##N(void* p) { access(p, N, PR); }                            \
  void __tsan_write##N(void* p) { access(p, N, PW); }                           \
  void __tsan_unaligned_read##N(void* p) { access(p, N, PR); }                  \
  void __tsan_unaligned_write##N(void* p) { access(p, N, PW); }                 \
  void __tsan_read_write##N(void* p) { access(p, N, PR), access(p, N, PW); }    \
  void __tsan_unaligned_read_write##N(void* p) { access(p, N, PR), access(p, N, PW); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, PR); }                   \
  void __tsan_volatile_write##N(void* p) { access(p, N, PW); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#undef ACC
void __tsan_vptr_update(void** p, void*) { access(p, 8, PW); }
void __tsan_vptr_read(void** p) { access(p, 8, PR); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, PR); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, PW); }
void* __tsan_memcpy(void* d, void const* s, unsigned long n) {
  access(s, n, PR);
  access(d, n, PW);
  return std::memmove(d, s, n);
}
void* __tsan_memmove(void* d, void const* s, unsigned long n) {
  access(s, n, PR);
  access(d, n, PW);
  return std::memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  access(d, n, PW);
  return std::memset(d, c, n);
}
int memcmp(void const* a, void const* b, size_t n) {
  if(me) {
    access(a, n, PR);
    access(b, n, PR);
  }
  unsigned char const *x = static_cast<unsigned char const*>(a), *y = static_cast<unsigned char const*>(b);
  for(size_t i = 0; i < n; ++i)
    if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(void const* a, void const* b, size_t n) { return memcmp(a, b, n); }

typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
typedef unsigned __int128 a128;
#define ATOMIC(N, S)                                                                                             \
  a##N __tsan_atomic##N##_load(a##N const volatile* p, int mo) {                                                 \
    a_load(const_cast<a##N const*>(p), S, mo);                                                                   \
    return *p;                                                                                                   \
  }                                                                                                              \
  void __tsan_atomic##N##_store(a##N volatile* p, a##N v, int mo) {                                              \
    a_store(const_cast<a##N const*>(p), S, mo);                                                                  \
    *p = v;                                                                                                      \
  }                                                                                                              \
  a##N __tsan_atomic##N##_exchange(a##N volatile* p, a##N v, int mo) {                                           \
    a_rmw(const_cast<a##N const*>(p), S, mo);                                                                    \
    a##N o = *p;                                                                                                 \
    *p = v;                                                                                                      \
    return o;                                                                                                    \
  }                                                                                                              \
  int __tsan_atomic##N##_compare_exchange_strong(a##N volatile* p, a##N* c, a##N v, int mo, int fmo) {           \
    if(*p != *c && !live()) {                                                                                    \
      *c = *p;                                                                                                   \
      return 0;                                                                                                  \
    }                                                                                                            \
    if(me && interesting(uptr(p))) on_access(uptr(p), S, AW, nullptr);                                           \
    if(*p == *c) {                                                                                               \
      if(live()) {                                                                                               \
        acquire(const_cast<a##N const*>(p), !is_acq(mo));                                                        \
        release(const_cast<a##N const*>(p), true, !is_rel(mo));                                                  \
      }                                                                                                          \
      *p = v;                                                                                                    \
      return 1;                                                                                                  \
    }                                                                                                            \
    if(live()) acquire(const_cast<a##N const*>(p), !is_acq(fmo));                                                \
    *c = *p;                                                                                                     \
    return 0;                                                                                                    \
  }                                                                                                              \
  int __tsan_atomic##N##_compare_exchange_weak(a##N volatile* p, a##N* c, a##N v, int mo, int fmo) {             \
    return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo);                                         \
  }                                                                                                              \
  a##N __tsan_atomic##N##_compare_exchange_val(a##N volatile* p, a##N c, a##N v, int mo, int fmo) {              \
    __tsan_atomic##N##_compare_exchange_strong(p, &c, v, mo, fmo);                                               \
    return c;                                                                                                    \
  }
#define FETCH(N, S, NAME, EXPR)                                                 \
  a##N __tsan_atomic##N##_fetch_##NAME(a##N volatile* p, a##N v, int mo) {      \
    a_rmw(const_cast<a##N const*>(p), S, mo);                                   \
    a##N o = *p;                                                                \
    *p = a##N(EXPR);                                                            \
    return o;                                                                   \
  }
#define ALLAT(N, S)           \
  ATOMIC(N, S)                \
  FETCH(N, S, add, o + v)     \
  FETCH(N, S, sub, o - v)     \
  FETCH(N, S, and, o & v)     \
  FETCH(N, S, or, o | v)      \
  FETCH(N, S, xor, o ^ v)     \
  FETCH(N, S, nand, ~(o & v))
ALLAT(8, 1) ALLAT(16, 2) ALLAT(32, 4) ALLAT(64, 8) ALLAT(128, 16)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

//------------------------------------------------------------------ locks of the standard library
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  lock_write(m, is_recursive(m), true);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { return lock_write(m, is_recursive(m), false) ? 0 : 16; }
int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const*) {
  lock_write(m, is_recursive(m), true);
  return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, struct timespec const*) {
  lock_write(m, is_recursive(m), true);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  unlock(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  lock_write(m, false, true);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  lock_read(m, true);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lock_write(m, false, false) ? 0 : 16; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return lock_read(m, false) ? 0 : 16; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  unlock(m);
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
  lock_write(const_cast<int*>(m), false, true);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
  unlock(const_cast<int*>(m));
  return 0;
}
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { // wakes up spuriously
  unlock(m);
  yield_now();
  lock_write(m, is_recursive(m), true);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const*) { return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t*) { return 0; }
int pthread_cond_broadcast(pthread_cond_t*) { return 0; }
int sched_yield() {
  yield_now();
  return 0;
}
int nanosleep(struct timespec const*, struct timespec*) {
  yield_now();
  return 0;
}
int clock_nanosleep(clockid_t, int, struct timespec const*, struct timespec*) {
  yield_now();
  return 0;
}

// once: 0 new, 1 running, 2 done
int pthread_once(pthread_once_t* o, void (*f)()) {
  if(live()) point_of_switch(true);
  for(;;) {
    if(*o == 2) {
      if(live()) acquire(o);
      return 0;
    }
    if(*o == 0) break;
    block_on(o);
  }
  *o = 1;
  if(live()) acquire(o); // an earlier attempt may have failed
  try {
    f();
  } catch(...) {
    *o = 0;
    if(live()) release(o, false, false);
    unblock(o);
    throw;
  }
  *o = 2;
  if(live()) release(o, false, false);
  unblock(o);
  return 0;
}
int __cxa_guard_acquire(u64* gd) {
  char* b = reinterpret_cast<char*>(gd);
  if(live()) point_of_switch(true);
  for(;;) {
    if(b[0]) {
      if(live()) acquire(gd);
      return 0;
    }
    if(!b[1]) break;
    block_on(gd);
  }
  b[1] = 1;
  if(live()) acquire(gd); // an earlier attempt may have failed
  return 1;
}
void __cxa_guard_release(u64* gd) {
  char* b = reinterpret_cast<char*>(gd);
  if(live()) release(gd, false, false);
  b[1] = 0;
  b[0] = 1;
  unblock(gd);
}
void __cxa_guard_abort(u64* gd) {
  if(live()) release(gd, false, false);
  reinterpret_cast<char*>(gd)[1] = 0;
  unblock(gd);
}
}
