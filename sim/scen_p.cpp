// Scenario P: space partitions under interrupted construction and merging.
#include "ops.hpp"

namespace sim {
namespace {

enum Code { BUILD, BUILD_ME, MERGE, CONN, QUERY, BASES, TRAVERSE, COPY, NCODES };
const char* const code_name[NCODES] = {"build", "build-with-elements", "merge", "find-connections", "query", "bases", "traverse", "copy"};

typedef std::vector<int> Part;               // subspace of every basis state (by number)
typedef std::set<std::pair<u64, u64>> Conns; // (from, to)

template <class S, typename... I> struct Run {
  typedef lc::hilbert_space<I...> HS;
  typedef lc::expression<S, I...> X;
  typedef lc::loperator<S, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Op_t;
  typedef lc::space_partition<HS> SP;
  typedef lc::matrix_elements_map<S> ME;
  enum { NP = 2, NO = 4, real = from_c<S>::real };

  Plan const& plan;
  MHS m;
  HS hs;
  u64 dim;
  std::vector<u64> states;
  Op_t ops[NO];
  Poly mops[NO];
  std::unique_ptr<SP> sp[NP];
  Part ms[NP];
  const char* what = "";

  Word word(Rng& r, int len) {
    Word w;
    for(int k = 0; k < len; ++k) w.push_back(letter_on(r, m));
    return w;
  }
  explicit Run(Plan const& pl) : plan(pl) {
    Rng r(pl.seed ^ u64(pl.cfg[0]) * 7919);
    int ns = r.range(1, 6);
    for(int k = 0; k < ns; ++k) {
      SD s = random_space(r, 4, pl.cfg[2], 7);
      MHS t = m;
      t.insert(s);
      if(t.bits() > 9 || t.dim() > u64(pl.cfg[1])) continue;
      m = t;
    }
    if(m.es.empty()) m.insert(SD{lc::fermion, 0, 2});
    for(auto const& s : m.es) hs.add(*make_es<I...>(s));
    dim = m.dim();
    for(u64 k = 0; k < dim; ++k) states.push_back(m.state(k));
    // 0: Hamiltonian; 1, 2: an operator and (usually) its conjugate; 3: another one
    for(int k = 0; k < NO; ++k) {
      X x;
      int cnt = k == 0 ? int(r.below(4)) : 1 + int(r.below(2));
      for(int i = 0; i < cnt; ++i) {
        cplx v(r.range(1, 3), real ? 0 : r.range(-1, 1));
        Word w = word(r, k == 0 ? 1 + int(r.below(3)) : 1 + int(r.below(2)));
        if(k == 2 && r.chance(2, 3) && i == 0) {
          double sg = 1;
          for(auto const& t : mops[1]) {
            Word c = conj(t.first, sg);
            if(c.size() && c[0].alg == CYC) break;
            x += X(from_c<S>::make(std::conj(t.second)), make_mono<I...>(c));
          }
          break;
        }
        x += X(from_c<S>::make(v), make_mono<I...>(w));
        if(k == 0 && r.chance(2, 3)) {
          bool cyc = false;
          for(auto const& l : w) cyc = cyc || l.alg == CYC;
          double sg = 1;
          if(!cyc) x += X(from_c<S>::make(std::conj(v)), make_mono<I...>(conj(w, sg)));
        }
      }
      mops[k] = read_expr(x);
      bool frag = false;
      for(u64 st : states) frag = frag || fragile(mops[k], m, st);
      if(frag) { // one term only: nothing can cancel
        auto t = mops[k][0];
        x = X(from_c<S>::make(t.second), make_mono<I...>(t.first));
        mops[k] = read_expr(x);
      }
      ops[k] = Op_t(x, hs);
    }
  }

  //---------------------------------------------------------------- model
  typedef std::map<std::pair<u64, u64>, cplx> Mat;
  Mat elements(int k) const {
    Mat r;
    for(u64 st : states)
      for(auto const& a : act(mops[k], m, st)) r[std::make_pair(a.first, st)] = a.second;
    return r;
  }
  static int root(std::vector<int>& p, int x) {
    while(p[std::size_t(x)] != x) x = p[std::size_t(x)];
    return x;
  }
  Part canonical(std::vector<int>& uf) const {
    std::map<int, int> num;
    Part r;
    for(u64 k = 0; k < dim; ++k) {
      int rt = root(uf, int(k));
      auto it = num.emplace(rt, int(num.size())).first;
      r.push_back(it->second);
    }
    return r;
  }
  Part finest(int k) const {
    std::vector<int> uf;
    for(u64 i = 0; i < dim; ++i) uf.push_back(int(i));
    for(auto const& e : elements(k)) {
      int a = root(uf, int(m.number(e.first.first))), b = root(uf, int(m.number(e.first.second)));
      uf[std::size_t(a)] = b;
    }
    return canonical(uf);
  }
  // finest coarsening of p in which the operators connect a subspace to at most one other
  Part merged(Part const& p, int k1, int k2) const {
    std::vector<int> uf;
    for(u64 i = 0; i < dim; ++i) uf.push_back(int(i));
    std::map<int, int> first;
    for(u64 i = 0; i < dim; ++i) {
      auto it = first.emplace(p[i], int(i)).first;
      uf[i] = it->second;
    }
    Mat el[2] = {elements(k1), elements(k2)};
    bool change = true;
    while(change) {
      change = false;
      for(auto const& mt : el) {
        std::map<int, int> target;
        for(auto const& e : mt) {
          int from = root(uf, int(m.number(e.first.second))), to = root(uf, int(m.number(e.first.first)));
          auto it = target.find(from);
          if(it == target.end()) {
            target.emplace(from, to);
            continue;
          }
          int o = root(uf, it->second);
          if(o != to) {
            uf[std::size_t(to)] = o;
            change = true;
          }
        }
      }
    }
    return canonical(uf);
  }
  Conns connections(Part const& p, int k) const {
    Conns r;
    for(auto const& e : elements(k)) r.emplace(u64(p[m.number(e.first.second)]), u64(p[m.number(e.first.first)]));
    return r;
  }

  //---------------------------------------------------------------- checks
  std::string show(Part const& p) const {
    std::string s;
    for(std::size_t k = 0; k < p.size() && k < 40; ++k) s += (k ? "," : "") + std::to_string(p[k]);
    return s;
  }
  Part rd(SP const& s) const {
    Part r;
    for(u64 st : states) r.push_back(int(s[st]));
    return r;
  }
  static int count(Part const& p) {
    int n = 0;
    for(int x : p) n = std::max(n, x + 1);
    return n;
  }
  void check(int i, const char* when) {
    if(!sp[i]) return;
    Part p = rd(*sp[i]);
    if(p != ms[i])
      fail("wrong-partition", "%s %s: partition %d of %s is %s instead of %s", what, when, i, text(m).c_str(), show(p).c_str(),
           show(ms[i]).c_str());
    if(sp[i]->n_subspaces() != u64(count(p)))
      fail("wrong-partition", "%s %s: %ld subspaces instead of %d", what, when, long(sp[i]->n_subspaces()), count(p));
    if(sp[i]->dim() != dim) fail("wrong-partition", "%s %s: dimension %ld", what, when, long(sp[i]->dim()));
    for(int x : p) log_u64(u64(x));
  }
  void all(const char* when) {
    for(int i = 0; i < NP; ++i) check(i, when);
    for(int k = 0; k < NO; ++k) {
      u64 st = states[u64(sh->cur_op * 5 + k) % dim];
      lc::sparse_state_vector<S> in(hs.vec_size()), out(hs.vec_size());
      in[st] = from_c<S>::make(1);
      ops[k](in, out);
      Amp a;
      foreach(out, [&](u64 j, S const& x) { a[j] = val(x); });
      if(!close(a, act(mops[k], m, st))) fail("operator-changed", "%s %s: operator %d changed", what, when, k);
    }
  }
  void check_elements(ME const& me, int k, Mat const& extra = Mat()) {
    Mat e = elements(k);
    for(auto const& x : extra) e.insert(x);
    if(me.size() != e.size()) fail("wrong-elements", "%s: %zu matrix elements instead of %zu", what, me.size(), e.size());
    for(auto const& x : me) {
      auto it = e.find(std::make_pair(u64(x.first.first), u64(x.first.second)));
      if(it == e.end() || !(std::abs(it->second - val(x.second)) < 1e-9 * (1 + std::abs(it->second))))
        fail("wrong-elements", "%s: matrix element <%llu|%llu> = (%g,%g) instead of (%g,%g)", what, (unsigned long long)x.first.first,
             (unsigned long long)x.first.second, val(x.second).real(), val(x.second).imag(),
             it == e.end() ? 0 : it->second.real(), it == e.end() ? 0 : it->second.imag());
      log_dbl(val(x.second).real());
    }
  }

  void step(Op const& op) {
    what = code_name[op.code];
    int i = op.a[0] % NP, j = 1 - i, var = op.a[5];
    int k = op.a[1] % NO;
    if(g.verbose) {
      trace("op %d %s partition %d of %s: %s", sh->cur_op, what, i, text(m).c_str(), show(ms[i]).c_str());
      for(int q = 0; q < NO; ++q) trace("   operator %d: %s", q, text(mops[q]).c_str());
    }
    auto failed = [&] { all("failed"); };
    switch(op.code) {
    case BUILD: {
      std::unique_ptr<SP> n;
      if(perform(
             op,
             [&] {
               if(var & 1)
                 n.reset(new SP(ops[k], hs));
               else
                 n.reset(new SP(lc::make_space_partition(ops[k], hs)));
             },
             failed)) {
        sp[i] = std::move(n);
        ms[i] = finest(k);
      }
      break;
    }
    case BUILD_ME: {
      std::unique_ptr<SP> n;
      ME me;
      Mat extra;
      bool pre = var % 3 == 0 && hs.vec_size() > 2;
      if(pre) { // not an empty map
        u64 st = states[0];
        extra[std::make_pair(hs.vec_size() + 5, st)] = 2.0;
        me.emplace(std::make_pair(hs.vec_size() + 5, st), from_c<S>::make(2.0));
      }
      if(var % 5 == 0) // values of an earlier (failed) attempt with other coefficients
        for(auto const& x : elements(k))
          if((x.first.first + x.first.second + u64(op.a[2])) % 2) me.emplace(x.first, from_c<S>::make(77.0));
      if(perform(
             op,
             [&] {
               if(var & 1)
                 n.reset(new SP(ops[k], hs, me));
               else
                 n.reset(new SP(lc::make_space_partition(ops[k], hs, me)));
             },
             [&] {
               failed();
               // what the map holds is right
               Mat e = elements(k);
               for(auto const& x : extra) e.insert(x);
               for(auto const& x : me) {
                 auto it = e.find(std::make_pair(u64(x.first.first), u64(x.first.second)));
                 if(it == e.end()) fail("wrong-elements", "%s failed and left a non-existing matrix element", what);
               }
             })) {
        sp[i] = std::move(n);
        ms[i] = finest(k);
        check_elements(me, k, extra);
      }
      break;
    }
    case MERGE: {
      if(!sp[i]) return;
      int k1 = 1 + op.a[1] % 3, k2 = 1 + op.a[2] % 3;
      if(var % 4) {
        k1 = 1 + (var & 1);
        k2 = 3 - k1;
      }
      bool store = var % 3 != 0;
      std::pair<ME, ME> res;
      if(perform(
             op,
             [&] {
               std::pair<ME, ME> t = var & 1 ? sp[i]->merge_subspaces(ops[k1], ops[k2], store)
                                             : store ? sp[i]->merge_subspaces(ops[k1], ops[k2])
                                                     : sp[i]->merge_subspaces(ops[k1], ops[k2], false);
               res = std::move(t);
             },
             failed)) {
        Part n = merged(ms[i], k1, k2);
        if(n != ms[i]) probe(20);
        ms[i] = n;
        if(store) {
          check_elements(res.first, k1);
          check_elements(res.second, k2);
        } else if(!res.first.empty() || !res.second.empty())
          fail("wrong-elements", "%s: matrix elements returned although none were requested", what);
      }
      break;
    }
    case CONN: {
      if(!sp[i]) return;
      Conns c, e = connections(ms[i], k);
      if(perform(
             op,
             [&] {
               auto t = sp[i]->find_connections(ops[k]);
               Pause p;
               c = Conns(t.begin(), t.end());
             },
             failed))
        if(c != e) fail("wrong-connections", "%s: %zu connections instead of %zu", what, c.size(), e.size());
      break;
    }
    case QUERY: {
      if(!sp[i]) return;
      u64 st = u64(op.a[3]) % (hs.vec_size() + 3);
      if(var % 5 == 0) st = hs.vec_size() + u64(op.a[4]) * 1000003;
      if(m.is_state(st)) {
        u64 s = 0;
        if(perform(op, [&] { s = (*sp[i])[st]; }, failed) && int(s) != ms[i][m.number(st)])
          fail("wrong-partition", "state %llu is in subspace %llu instead of %d", (unsigned long long)st, (unsigned long long)s,
               ms[i][m.number(st)]);
      } else {
        std::exception_ptr err;
        if(!perform_err(op, [&] { (void)(*sp[i])[st]; }, failed, err)) return;
        if(!err) fail("missing-error", "a subspace is reported for %llu, which is not a basis state", (unsigned long long)st);
        try {
          std::rethrow_exception(err);
        } catch(std::out_of_range const& e) {
          if(std::string(e.what()) != "Unexpected basis state index " + std::to_string(st)) fail("wrong-error", "message '%s'", e.what());
          probe(21);
        } catch(std::exception const& e) {
          fail("wrong-error", "%s instead of out_of_range", e.what());
        }
      }
      break;
    }
    case BASES: {
      if(!sp[i]) return;
      int n = count(ms[i]);
      if(var & 1) {
        std::vector<std::vector<lc::sv_index_type>> b;
        if(perform(op, [&] { b = sp[i]->subspace_bases(); }, failed)) {
          std::vector<std::vector<lc::sv_index_type>> e;
          e.resize(std::size_t(n));
          for(u64 q = 0; q < dim; ++q) e[std::size_t(ms[i][q])].push_back(states[q]);
          if(b != e) fail("wrong-partition", "%s: wrong subspace bases", what);
        }
      } else {
        u64 idx = u64(op.a[3]) % u64(n + 1);
        std::vector<lc::sv_index_type> b, e;
        for(u64 q = 0; q < dim; ++q)
          if(u64(ms[i][q]) == idx) e.push_back(states[q]);
        if(idx < u64(n)) {
          if(perform(op, [&] { b = sp[i]->subspace_basis(idx); }, failed) && b != e)
            fail("wrong-partition", "%s: wrong basis of subspace %llu", what, (unsigned long long)idx);
        } else {
          std::exception_ptr err;
          if(!perform_err(op, [&] { b = sp[i]->subspace_basis(idx); }, failed, err)) return;
          if(!err) fail("missing-error", "%s: a basis of missing subspace %llu is reported", what, (unsigned long long)idx);
          try {
            std::rethrow_exception(err);
          } catch(std::out_of_range const& x) {
            fail("wrong-error", "%s: out_of_range (%s)", what, x.what());
          } catch(std::runtime_error const& x) {
            if(std::string(x.what()) != "Wrong subspace index " + std::to_string(idx)) fail("wrong-error", "message '%s'", x.what());
          } catch(std::exception const& x) {
            fail("wrong-error", "%s: %s", what, x.what());
          }
        }
      }
      break;
    }
    case TRAVERSE: {
      if(!sp[i]) return;
      std::vector<std::pair<u64, u64>> got;
      int nest = var % 4;
      if(!perform(
             op,
             [&] {
               got.clear();
               foreach(*sp[i], [&](lc::sv_index_type st, lc::sv_index_type sub) {
                 point(K_CB);
                 if(nest == 1 && got.size() == 1) (void)sp[i]->find_connections(ops[k]);
                 if(nest == 2 && got.size() == 2 && sp[j]) foreach(*sp[j], [](lc::sv_index_type, lc::sv_index_type) { point(K_CB); });
                 Pause p;
                 got.emplace_back(st, sub);
               });
             },
             failed))
        break;
      if(got.size() != dim) fail("wrong-partition", "%s: %zu states visited instead of %zu", what, got.size(), std::size_t(dim));
      for(u64 q = 0; q < dim; ++q)
        if(got[q].first != states[q] || int(got[q].second) != ms[i][q])
          fail("wrong-partition", "%s: visit %llu is state %llu in %llu", what, (unsigned long long)q, (unsigned long long)got[q].first,
               (unsigned long long)got[q].second);
      break;
    }
    case COPY: {
      if(!sp[i]) return;
      std::unique_ptr<SP> n;
      if(perform(op, [&] { n.reset(new SP(*sp[i])); }, failed)) {
        if(var & 1) n.reset(new SP(std::move(*n)));
        sp[j] = std::move(n);
        ms[j] = ms[i];
      }
      break;
    }
    }
    all("completed");
  }

  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {int(r.below(1000)), r.chance(1, 2) ? 16 : r.chance(2, 3) ? 48 : 128, r.range(1, 15)};
  int n = size ? size : r.range(3, 12);
  for(int i = 0; i < n; ++i) {
    Op o;
    o.code = int(r.below(NCODES));
    if(i == 0) o.code = r.chance(1, 2) ? BUILD : BUILD_ME;
    if(r.chance(1, 3) && i) o.code = MERGE;
    for(int& a : o.a) a = int(r.below(1 << 15));
    if(i == 0 || (o.code == BUILD && r.chance(1, 2))) o.a[1] &= ~3; // the Hamiltonian
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<Scal<0>, UIdx> TheRun;
#define SIM_NAME "P0"
#elif SIM_CONF == 1
typedef Run<double, int> TheRun;
#define SIM_NAME "P1"
#else
typedef Run<cplx, dyn_indices> TheRun;
#define SIM_NAME "P2"
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  return std::string(code_name[o.code % NCODES]) + " p" + std::to_string(o.a[0] % 2) + " op" + std::to_string(o.a[1] % 4);
}
} // namespace
SIM_SCENARIO(P, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_GEN | 1u << K_SCALAR | 1u << K_CB, describe)
} // namespace sim
