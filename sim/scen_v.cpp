// Scenario V: state vectors and views as storage, under any history.
#include "views.hpp"

namespace sim {
namespace {

enum Code { CREATE, ADD, ADD_TMP, ADD_OWN, STORE, ZERO, PRUNE, PRUNE_IF, GET, EACH, INTO, FROM, CLONE, MOVE, LIKE, TWIN, DROP, OUTSIDE, NCODES };
const char* const code_name[NCODES] = {"create", "add", "add-temporary", "add-own-amplitude", "store", "set-zeros", "prune", "prune-if", "get",
                                       "traverse", "apply-into", "apply-from", "copy", "move", "zeros-like", "constant-twin", "drop", "outside"};

bool small(cplx x) { return std::abs(x) < 1.1; }
bool negative(cplx x) { return x.real() < 0; }

template <class S, typename... I> struct Run {
  typedef VSpace<S, I...> VS;
  typedef typename VS::Proto Proto;
  typedef typename VS::Ptr Ptr;
  typedef lc::expression<S, I...> X;
  enum { NS = 6, real = from_c<S>::real };
  struct Slot {
    Ptr v;
    std::shared_ptr<VModel> md;
    Proto p;
  };

  Plan const& plan;
  Rng r0;
  VS sp;
  MHS const& m;
  Slot s[NS];
  const char* what = "";

  explicit Run(Plan const& pl) : plan(pl), r0(pl.seed ^ u64(pl.cfg[0]) * 7919), sp(r0, pl.cfg[1], pl.cfg[2]), m(sp.m) {}

  void all(const char* when) {
    for(int i = 0; i < NS; ++i)
      if(s[i].v) check_vec(*s[i].v, *s[i].md, what, when);
  }
  u64 key(Slot const& t, int a) const { return t.md->keys[std::size_t(a) % t.md->keys.size()]; }
  // What is in a vector whose contents an interrupted operation left open?
  template <class F> void resync(Slot& t, F allowed) {
    quiet([&] {
      Amp a;
      for(u64 n : t.md->keys) {
        cplx x = val(t.v->get(n));
        if(!allowed(n, x))
          fail("wrong-amplitude", "%s: interrupted operation left (%g,%g) at %llu of %s, which had (%g,%g)", what, x.real(), x.imag(),
               (unsigned long long)n, t.md->name.c_str(), t.md->at(n).real(), t.md->at(n).imag());
        if(x != 0.0) a[n] = x;
      }
      t.md->amp = a;
    });
  }
  // An operator and its model
  X random_expr(Rng& r) {
    X x;
    int cnt = 1 + int(r.below(3));
    for(int i = 0; i < cnt; ++i) {
      cplx c(r.range(1, 3), real ? 0 : r.range(-1, 1));
      Word w;
      int len = 1 + int(r.below(2));
      for(int k = 0; k < len; ++k) {
        Letter l = letter_on(r, m);
        if(l.alg == lc::fermion && r.chance(4, 5)) { // hopping
          Letter l2 = l;
          for(int t = 0; t < 20; ++t) {
            Letter q = letter_on(r, m);
            if(q.alg == lc::fermion) l2 = q;
          }
          l.a = 1;
          l2.a = 0;
          w.push_back(l);
          w.push_back(l2);
        } else if(l.alg == lc::spin && r.chance(2, 3)) {
          l.a = 2;
          w.push_back(l);
        } else
          w.push_back(l);
      }
      x += X(from_c<S>::make(c), make_mono<I...>(w));
    }
    return x;
  }

  void step(Op const& op) {
    what = code_name[op.code];
    int i = op.a[0] % NS, j = op.a[1] % NS, var = op.a[5];
    Slot &t = s[i], &o = s[j];
    Rng r(u64(op.a[2]) * 77777 + u64(op.a[3]));
    if(g.verbose)
      trace("op %d %s slot %d (%s) %d", sh->cur_op, what, i, t.v ? t.md->name.c_str() : "empty", j);
    auto failed = [&] { all("failed"); };
    if(op.code != CREATE && !t.v) return;
    switch(op.code) {
    case CREATE: {
      int k = op.a[1] % VS::n_kinds();
      if(!sp.possible(k)) return;
      Proto p = quiet([&] { return sp.prepare(r, k); });
      if(p.k < 0 || p.model->keys.empty()) return;
      Ptr n;
      if(g.verbose) trace("   over %s: %s, size %llu", text(m).c_str(), p.model->name.c_str(), (unsigned long long)p.size);
      if(perform(op, [&] { n = sp.build(p); }, failed, VS::kind(p.k).shape == NFMS)) {
        t.v = std::move(n);
        t.p = p;
        t.md = p.model;
        sp.check_slots(t.p, *t.v);
        if(p.full) probe(30);
        if(var % 4 && t.v->writable())
          quiet([&] {
            for(int c = r.range(1, 8); c > 0; --c) {
              u64 n = key(t, int(r.below(1 << 15)));
              cplx x(r.range(-4, 4) / 2.0, real ? 0 : r.range(-2, 2));
              t.v->add_tmp(n, from_c<S>::make(x));
              t.md->add(n, x);
            }
          });
      }
      break;
    }
    case ADD:
    case ADD_TMP: {
      if(!t.v->writable()) return;
      u64 n = key(t, op.a[4]);
      cplx x(r.range(-4, 4) / 2.0, real ? 0 : r.range(-2, 2));
      if(var % 3 == 0) {
        if(var & 8 && t.md->amp.size()) n = std::next(t.md->amp.begin(), long(std::size_t(op.a[4]) % t.md->amp.size()))->first;
        x = -t.md->at(n);
      }
      if(x + t.md->at(n) == 0.0 && x != 0.0) probe(31);
      S v = from_c<S>::make(x);
      bool ok;
      if(op.code == ADD)
        ok = perform(op, [&] { t.v->add(n, v); }, failed);
      else
        ok = perform(op, [&] { t.v->add_tmp(n, S(v)); }, failed);
      if(val(v) != x) fail("argument-changed", "%s: the argument changed", what);
      if(ok) t.md->add(n, x);
      break;
    }
    case ADD_OWN: {
      if(!t.v->writable()) return;
      u64 n = key(t, op.a[4]), k = key(t, op.a[3]);
      if(var % 3 == 0) k = n;
      if(std::abs(t.md->at(k)) > 1e6) return;
      if(perform(op, [&] { t.v->add_own(n, k); }, failed)) t.md->add(n, t.md->at(k));
      break;
    }
    case STORE: {
      if(!t.v->writable() || t.v->stored() < 0) return;
      u64 n = key(t, op.a[4]);
      cplx x(r.range(-4, 4) / 2.0, real ? 0 : r.range(-2, 2));
      S v = from_c<S>::make(x);
      if(perform(op, [&] { t.v->store(n, v); },
                 [&] {
                   if(t.md->at(n) == 0.0) t.md->loose.insert(n); // an accessed element exists
                   failed();
                 })) {
        t.md->amp.erase(n);
        t.md->loose.erase(n);
        if(x != 0.0)
          t.md->amp[n] = x;
        else
          t.md->loose.insert(n);
      }
      break;
    }
    case ZERO: {
      if(!t.v->writable()) return;
      if(perform(op, [&] { t.v->zero(); },
                 [&] {
                   resync(t, [&](u64 n, cplx x) { return x == 0.0 || x == t.md->at(n); });
                   failed();
                 })) {
        t.md->amp.clear();
        t.md->loose.clear();
      }
      break;
    }
    case PRUNE: {
      if(perform(op, [&] { t.v->prune(); }, failed) && t.v->stored() >= 0) t.md->loose.clear();
      break;
    }
    case PRUNE_IF: {
      if(t.v->stored() < 0) return;
      bool (*pr)(cplx) = var & 1 ? small : negative;
      auto after = [&](bool all_) {
        for(auto it = t.md->loose.begin(); it != t.md->loose.end();) it = pr(0.0) && all_ ? t.md->loose.erase(it) : std::next(it);
      };
      if(perform(op, [&] { t.v->prune_if(pr); },
                 [&] {
                   resync(t, [&](u64 n, cplx x) { return x == t.md->at(n) || (x == 0.0 && pr(t.md->at(n))); });
                   failed();
                 })) {
        resync(t, [&](u64 n, cplx x) { return x == (pr(t.md->at(n)) ? 0.0 : t.md->at(n)); });
        after(true);
      }
      break;
    }
    case GET: {
      u64 n = key(t, op.a[4]);
      cplx x;
      if(perform(op, [&] { x = val(t.v->get(n)); }, failed) && x != t.md->at(n))
        fail("wrong-amplitude", "amplitude %llu of %s is (%g,%g) instead of (%g,%g)", (unsigned long long)n, t.md->name.c_str(), x.real(), x.imag(),
             t.md->at(n).real(), t.md->at(n).imag());
      break;
    }
    case EACH: {
      if(!t.md->each) return;
      Amp a;
      if(perform(op,
                 [&] {
                   a.clear();
                   t.v->each([&](u64 n, S const& x) {
                     point(K_CB);
                     if(var % 5 == 1 && o.v && o.md->each) o.v->each([](u64, S const&) { point(K_CB); });
                     if(var % 5 == 2 && o.v) (void)o.v->get(key(o, op.a[4]));
                     Pause p;
                     if(val(x) != 0.0) {
                       if(a.count(n)) fail("wrong-traversal", "amplitude %llu of %s is visited twice", (unsigned long long)n, t.md->name.c_str());
                       a[n] = val(x);
                     }
                   });
                 },
                 failed))
        if(a != t.md->amp) fail("wrong-traversal", "%s is %s instead of %s", t.md->name.c_str(), text(a).c_str(), text(Amp(t.md->amp)).c_str());
      break;
    }
    case INTO: {
      if(!t.v->writable()) return;
      auto* e = new X(quiet([&] { return random_expr(r); }));
      std::unique_ptr<X> ex(e);
      Poly q = read_expr(*ex);
      LOp<S> lop(*ex, sp.hs);
      // source: one to three basis states the vector knows
      UVec<S> src(u64(1) << m.bits());
      Amp in;
      for(int k = 0; k < 1 + var % 3; ++k) {
        u64 n = key(t, op.a[4] + k * 7);
        if(!m.is_state(n) || fragile(q, m, n)) return;
        in[n] = double(1 + k);
        src.d.erase(n);
        src.d.emplace(n, from_c<S>::make(double(1 + k)));
      }
      Amp out = act(q, m, in);
      bool inside = true;
      std::set<u64> ks(t.md->keys.begin(), t.md->keys.end());
      // intermediate contributions may cancel, so look at each of them
      for(auto const& a : in)
        for(auto const& term : q)
          for(auto const& b : act(Poly{term}, m, a.first)) inside = inside && ks.count(b.first);
      int shape = VS::kind(t.p.k).shape;
      if(!inside && (shape == NFS || shape == NFMS)) return;                // not allowed
      if(!inside && shape != MAPPED) {
        if(!(sp.big && (shape == VEC || shape == COMP))) harness_error("result outside of %s", t.md->name.c_str());
        return; // sampled keys
      }
      auto open = [&] {
        resync(t, [](u64, cplx) { return true; });
        t.md->loose.clear();
        failed();
      };
      if(inside) {
        if(perform(op, [&] { t.v->from(lop, src); }, open)) {
          Amp got;
          quiet([&] {
            for(u64 n : t.md->keys) {
              cplx x = val(t.v->get(n));
              if(x != 0.0) got[n] = x;
            }
          });
          if(!close(got, out))
            fail("wrong-application", "%s applied to %s gives %s instead of %s in %s", text(q).c_str(), text(in).c_str(), text(got).c_str(),
                 text(out).c_str(), t.md->name.c_str());
          t.md->amp = got;
          t.md->loose.clear();
          if(out.size()) probe(32);
        }
      } else {
        std::exception_ptr err;
        if(!perform_err(op, [&] { t.v->from(lop, src); }, open, err)) return;
        if(!err) fail("missing-error", "%s: the result does not fit into %s, but no error was raised", what, t.md->name.c_str());
        try {
          std::rethrow_exception(err);
        } catch(std::out_of_range const&) {
          probe(33);
        } catch(std::exception const& x) {
          fail("wrong-error", "%s: %s instead of out_of_range", what, x.what());
        }
        open();
      }
      break;
    }
    case FROM: {
      if(!t.md->each) return;
      for(auto const& a : t.md->amp)
        if(!m.is_state(a.first)) return;
      X ex(quiet([&] { return random_expr(r); }));
      Poly q = read_expr(ex);
      for(auto const& a : t.md->amp)
        if(fragile(q, m, a.first)) return;
      LOp<S> lop(ex, sp.hs);
      UVec<S> dst(u64(1) << m.bits());
      if(perform(op, [&] { t.v->to(lop, dst); }, failed)) {
        Amp got, out = act(q, m, t.md->amp);
        for(auto const& x : dst.d)
          if(val(x.second) != 0.0) got[x.first] = val(x.second);
        if(!close(got, out))
          fail("wrong-application", "%s applied to %s gives %s instead of %s", text(q).c_str(), text(Amp(t.md->amp)).c_str(), text(got).c_str(),
               text(out).c_str());
        if(out.size()) probe(34);
      }
      break;
    }
    case CLONE: {
      Ptr n;
      if(perform(op, [&] { n = t.v->clone(); }, failed)) {
        Proto p = t.p;
        std::shared_ptr<VModel> md = t.md;
        if(!VS::kind(t.p.k).ref) md = std::make_shared<VModel>(*md);
        o.v = std::move(n);
        o.p = p;
        o.md = md;
      }
      break;
    }
    case MOVE: {
      Ptr n;
      quiet([&] { n = t.v->moved(); });
      auto md = t.md;
      Proto p = t.p;
      t.v.reset();
      t.md.reset();
      o.v = std::move(n);
      o.md = md;
      o.p = p;
      break;
    }
    case LIKE: {
      if(t.v->view()) return;
      Ptr n;
      if(perform(op, [&] { n = t.v->like(); }, failed)) {
        auto md = std::make_shared<VModel>(*t.md);
        md->amp.clear();
        md->loose.clear();
        Proto p = t.p;
        o.v = std::move(n);
        o.md = md;
        o.p = p;
      }
      break;
    }
    case TWIN: {
      if(!VS::kind(t.p.k).konst) return;
      Ptr n;
      if(perform(op, [&] { n = sp.build(t.p, true); }, failed, VS::kind(t.p.k).shape == NFMS)) {
        Proto p = t.p;
        auto md = t.md;
        o.v = std::move(n);
        o.p = p;
        o.md = md;
        sp.check_slots(o.p, *o.v);
        probe(35);
      }
      break;
    }
    case DROP: {
      t.v.reset();
      t.md.reset();
      break;
    }
    case OUTSIDE: {
      if(VS::kind(t.p.k).shape != MAPPED) return;
      u64 n = r.chance(1, 2) ? m.state(r.below(m.dim())) : r.next();
      if(std::find(t.md->keys.begin(), t.md->keys.end(), n) != t.md->keys.end()) return;
      std::exception_ptr err;
      S one = from_c<S>::make(1);
      bool upd = t.v->writable() && var & 1;
      if(!perform_err(op,
                      [&] {
                        if(upd)
                          t.v->add(n, one);
                        else
                          (void)t.v->get(n);
                      },
                      failed, err))
        return;
      if(!err) fail("missing-error", "amplitude %llu is not in the mapping, but was accessed", (unsigned long long)n);
      try {
        std::rethrow_exception(err);
      } catch(std::out_of_range const&) {
      } catch(std::exception const& x) {
        fail("wrong-error", "%s instead of out_of_range", x.what());
      }
      break;
    }
    }
    all("completed");
  }

  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {int(r.below(1000)), int(r.below(3)), r.range(1, 15)};
  int n = size ? size : r.range(5, 26);
  static const int weight[NCODES] = {8, 12, 8, 6, 5, 3, 3, 3, 3, 5, 8, 6, 4, 2, 2, 4, 2, 3};
  int sum = 0;
  for(int w : weight) sum += w;
  for(int i = 0; i < n; ++i) {
    Op o;
    int x = int(r.below(u64(sum)));
    for(o.code = 0; x >= weight[o.code]; ++o.code) x -= weight[o.code];
    if(i < 2) o.code = CREATE;
    for(int& a : o.a) a = int(r.below(1 << 15));
    if(i >= 2 && r.chance(1, 2)) o.a[0] = p.ops[std::size_t(r.below(2))].a[0]; // where something is
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<Scal<0>, UIdx> TheRun;
#define SIM_NAME "V0"
#elif SIM_CONF == 1
typedef Run<double, int> TheRun;
#define SIM_NAME "V1"
#else
typedef Run<cplx, dyn_indices> TheRun;
#define SIM_NAME "V2"
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  return std::string(code_name[o.code % NCODES]) + " slot " + std::to_string(o.a[0] % 6) + (o.code == CREATE ? " kind " : " with ") +
         std::to_string(o.code == CREATE ? o.a[1] % TheRun::VS::n_kinds() : o.a[1] % 6);
}
} // namespace
SIM_SCENARIO(V, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_GEN | 1u << K_SCALAR | 1u << K_CB | 1u << K_VEC | 1u << K_IDX, describe)
} // namespace sim
