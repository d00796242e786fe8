// Scenario M: every thread runs a workload of some other scenario on objects
// of its own. The generators (and, for scenario O, whole objects) they start
// from are shared between the threads; whoever drops one last releases it.
#include "mt.hpp"
#include "ops.hpp"

namespace sim {
std::shared_ptr<Originals> (*make_originals[3])(u64 seed) = {};
SIM_TLS Originals const* my_originals = nullptr;

namespace {
const char* const LETTERS = "OELHPVBSTX";
enum { NL = 10 };

template <typename... I> struct Pools {
  typedef GenPool<I...> P;
  typename P::type common;
  typename P::type* part[MAXT] = {};
  void fill(Rng& r, int n, int density) {
    for(int alg : {lc::fermion, lc::boson})
      for(int i = 0; i < 6; ++i)
        for(int d = 0; d < 2; ++d) add(r, Letter{alg, i, d, 0}, density);
    for(int m = 2; m < 5; ++m)
      for(int i = 0; i < 4; ++i)
        for(int c = 0; c < 3; ++c) add(r, Letter{lc::spin, i, c, m}, density);
    for(int i = 0; i < 2; ++i) {
      for(int w = -2; w < 3; ++w) add(r, Letter{WITT, i, w, 0}, density);
      for(int a = 0; a < 3; ++a) add(r, Letter{QUAT, i, a, 0}, density);
      for(int a = 0; a < 2; ++a) add(r, Letter{CLIFF, i, a, 0}, density);
      add(r, Letter{TRI, i, 0, 0}, density);
      add(r, Letter{CYC, i, 0, 0}, density);
    }
    for(int t = 0; t < n; ++t) part[t] = new typename P::type(common);
  }
  void add(Rng& r, Letter const& l, int density) {
    if(r.chance(density, 4)) common.emplace_back(l, make_gen<I...>(l));
  }
  ~Pools() {
    for(auto* p : part) delete p;
  }
  void enter(int t) {
    P::mine = part[t];
    part[t] = nullptr;
  }
  void leave() {
    delete P::mine;
    P::mine = nullptr;
  }
};

struct Sub {
  Scenario const* sc;
  Plan plan;
};
struct Part { // from plan.cfg
  int scen;
  std::vector<int> cfg;
};
// cfg: threads, pool density, give-back time, same seed for all threads?, then scenario, number of settings, settings
std::vector<Part> parts(Plan const& p) {
  std::vector<Part> r;
  std::size_t k = 4;
  for(int t = 0; t < p.cfg[0]; ++t) {
    Part x;
    x.scen = p.cfg[k++];
    int n = p.cfg[k++];
    for(int i = 0; i < n; ++i) x.cfg.push_back(p.cfg[k++]);
    r.push_back(x);
  }
  return r;
}
std::string name_of(int scen) { return std::string(1, LETTERS[scen / 3]) + char('0' + scen % 3); }

struct Body : MtBody {
  std::vector<Sub> subs;
  Pools<UIdx> p0;
  Pools<std::string, int> p1;
  Pools<dyn_indices> p2;
  Pools<int> p3;
  std::shared_ptr<Originals> orig[MAXT];
  std::shared_ptr<Originals> unused;
  int back = 0;
  void give_back(int t) {
    my_originals = nullptr;
    orig[t].reset();
    p0.leave();
    p1.leave();
    p2.leave();
    p3.leave();
  }
  void run(int t) override {
    p0.enter(t);
    p1.enter(t);
    p2.enter(t);
    p3.enter(t);
    my_originals = orig[t].get();
    subs[std::size_t(t)].sc->run(subs[std::size_t(t)].plan);
    give_back(t);
    sh->hash = mix(sh->hash);
  }
  void op_boundary(int t, int op) override {
    if(op == back) give_back(t);
  }
};

void prewarm() {
  index_id(Indices<std::string, int>::make(0));
  index_id(Indices<dyn_indices>::make(0));
  index_id(Indices<int>::make(0));
  index_id(Indices<UIdx>::make(0));
  std::ostringstream o;
  o << 1 << ' ' << 1.5 << ' ' << cplx(1, 2) << true << 1ul;
}

void run(Plan const& p) {
  prewarm();
  int n = p.cfg[0];
  auto own = ops_of_threads(p, n);
  auto ps = parts(p);
  MtMark live0 = mt_mark();
  {
    Body b;
    for(int t = 0; t < n; ++t) {
      Sub s;
      s.sc = find_scenario(name_of(ps[std::size_t(t)].scen));
      if(!s.sc) harness_error("no scenario %s", name_of(ps[std::size_t(t)].scen).c_str());
      s.plan.scen = s.sc->name;
      s.plan.seed = mix(p.seed + (p.cfg[3] ? 0 : u64(t))) >> 1;
      s.plan.cfg = ps[std::size_t(t)].cfg;
      for(int k : own[std::size_t(t)]) s.plan.ops.push_back(p.ops[std::size_t(k)]);
      b.subs.push_back(s);
    }
    Rng r(p.seed ^ 0x9e37);
    b.p0.fill(r, n, p.cfg[1]);
    b.p1.fill(r, n, p.cfg[1]);
    b.p2.fill(r, n, p.cfg[1]);
    b.p3.fill(r, n, p.cfg[1]);
    int conf = ps[0].scen % 3;
    if(make_originals[conf]) {
      auto o = make_originals[conf](p.seed);
      for(int t = 0; t < n; ++t)
        if(LETTERS[ps[std::size_t(t)].scen / 3] == 'O') b.orig[t] = o;
    }
    b.back = p.cfg[2];
    b.p0.common.clear();
    b.p1.common.clear();
    b.p2.common.clear();
    b.p3.common.clear();
    mt_run(p, n, b);
    for(int t = 0; t < n; ++t) // failures that the scenario does not expect
      for(int k : own[std::size_t(t)])
        for(int q = 0; q < NKINDS; ++q)
          if(!(b.subs[std::size_t(t)].sc->kinds >> q & 1)) sh->points[k][q] = 0;
  }
  if(long n = mt_lost(live0)) fail("mt-leak", "%ld blocks were not released", n);
}

void gen(Rng& r, Plan& p, int size) {
  int n = r.chance(1, 2) ? 2 : r.chance(1, 2) ? 3 : 4;
  int conf = int(r.below(3));
  p.cfg = {n, r.range(0, 4), int(r.below(12)), 0};
  int same = r.chance(1, 2) ? int(r.below(NL)) : -1;
  // all threads copy the same objects, one of them keeps and changes its copies, the others look at them and let go
  bool handover = r.chance(1, 5);
  int keeper = int(r.below(u64(n)));
  if(handover) {
    same = 0;
    p.cfg[2] = int(r.below(2));
  }
  // all threads do the same thing, or almost
  int twins = handover ? 0 : int(r.below(5));
  if(twins == 1 || twins == 2) {
    p.cfg[3] = 1;
    same = same >= 0 ? same : r.chance(1, 4) ? 0 : int(r.below(NL));
  }
  int common_len = r.range(2, 7);
  for(int t = 0; t < n; ++t) {
    int l = same >= 0 ? same : r.chance(1, 3) ? 0 : int(r.below(NL));
    Plan q;
    q.seed = mix(p.seed + (p.cfg[3] ? 0 : u64(t))) >> 1;
    q.scen = name_of(l * 3 + conf);
    Scenario const* sc = find_scenario(q.scen);
    if(!sc) harness_error("no scenario %s", q.scen.c_str());
    Rng r2(q.seed);
    int len = size ? size : p.cfg[3] ? common_len : r.range(2, 7);
    if(handover && t != keeper) len = 2;
    sc->gen(r2, q, len);
    if(handover)
      for(std::size_t k = 0; k < q.ops.size(); ++k) {
        q.ops[k].code = t == keeper ? 8 : r.chance(1, 2) ? 7 : 10; // modify, destroy, derive
        q.ops[k].a[0] = int(r.below(1 << 15));
      }
    if(twins == 2 && t > 0)
      for(auto& o : q.ops)
        if(r.chance(1, 4)) o.a[r.below(4)] = int(r.below(1 << 15));
    p.cfg.push_back(l * 3 + conf);
    p.cfg.push_back(int(q.cfg.size()));
    for(int c : q.cfg) p.cfg.push_back(c);
    for(auto& o : q.ops) {
      o.thr = t;
      if(p.ops.size() < MAX_OPS) p.ops.push_back(o);
    }
  }
  random_schedule(r, p);
}
std::string describe(Plan const& p, Op const& o) {
  auto ps = parts(p);
  if(o.thr >= int(ps.size())) return "?";
  Scenario const* sc = find_scenario(name_of(ps[std::size_t(o.thr)].scen));
  if(!sc) return "?";
  Plan q;
  q.cfg = ps[std::size_t(o.thr)].cfg;
  return "thread " + std::to_string(o.thr) + " (" + sc->name + "): " + (sc->describe ? sc->describe(q, o) : "");
}
} // namespace
SIM_SCENARIO(M, "M", gen, run, (1u << NKINDS) - 1, describe)
} // namespace sim
