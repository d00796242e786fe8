// Scenario H: histories of Hilbert spaces, with interrupted changes.
// Four spaces; after every attempt all of them answer all queries like their models.
#include "spaces.hpp"

namespace sim {
namespace {

enum Code { CTOR_LIST, CTOR_VEC, CTOR_EXPR, ADD, COPY_ASSIGN, MOVE_ASSIGN, COPY_CONS, SELF, SWAP, QUERY, TRAVERSE,
            COMPARE, CLEAR, BUILT_ON, NCODES };
const char* const code_name[NCODES] = {"construct", "construct-from-vector", "construct-from-expression", "add", "copy-assign",
                                       "move-assign", "copy-construct", "self-assign", "swap", "query", "traverse", "compare",
                                       "clear", "built-on"};

template <typename... I> struct Run {
  typedef lc::hilbert_space<I...> HS;
  typedef lc::elementary_space<I...> ES;
  typedef std::unique_ptr<ES> ESP;
  typedef typename HS::elementary_space_exists Exists;
  typedef typename HS::elementary_space_not_found NotFound;
  typedef typename HS::hilbert_space_too_big TooBig;
  enum { NH = 4 };
  HS h[NH];
  MHS m[NH];
  Plan const& plan;
  const char* what = "";
  explicit Run(Plan const& p) : plan(p) {}

  SD space(Rng& r) {
    SD s;
    s.idx = int(r.below(u64(plan.cfg[0])));
    switch(r.below(u64(plan.cfg[1] ? 10 : 6))) {
    case 0: case 1: s.alg = lc::fermion; s.par = 2; break;
    case 2: case 3: s.alg = lc::boson; s.par = r.chance(1, 8) ? 1L << r.range(1, 34) : r.range(1, 9); break;
    case 4: case 5: s.alg = lc::spin; s.par = r.chance(1, 6) ? r.range(5, 300) : r.range(2, 5); break;
    default:
      s.alg = int(r.below(5));
      s.par = r.chance(1, 10) ? 1L << r.range(5, 20) : r.range(1, 7);
    }
    return s;
  }
  void check_all(const char* when) {
    static const char* last;
    (void)last;
    for(int i = 0; i < NH; ++i) check_hs(h[i], m[i], when, u64(plan.cfg[2]));
  }
  void failed() {
    std::string w = std::string(what) + " failed";
    check_all(w.c_str());
  }
  void done() {
    std::string w = std::string(what) + " completed";
    check_all(w.c_str());
  }
  void check_exists(std::exception_ptr const& err, SD const& s) {
    if(!err) fail("missing-error", "%s: adding %s twice was not refused", what, text(s).c_str());
    try {
      std::rethrow_exception(err);
    } catch(Exists const& e) {
      SD t = read_es(*e.elementary_space_ptr);
      if(!sd_same(s, t) || dim(s) != dim(t)) fail("wrong-error", "%s: error about %s instead of %s", what, text(t).c_str(), text(s).c_str());
      if(std::string(e.what()) != "Elementary space already exists") fail("wrong-error", "%s: message '%s'", what, e.what());
    } catch(std::exception const& e) {
      fail("wrong-error", "%s: %s instead of elementary_space_exists", what, e.what());
    }
  }
  void check_big(std::exception_ptr const& err, int bits) {
    if(!err) fail("missing-error", "%s: a Hilbert space of %d bits was not refused", what, bits);
    try {
      std::rethrow_exception(err);
    } catch(TooBig const& e) {
      if(e.n_bits != bits) fail("wrong-error", "%s: error about %d bits instead of %d", what, e.n_bits, bits);
      if(std::string(e.what()) != "Hilbert space size is not representable by a 64-bit integer (n_bits = " + std::to_string(bits) + ")")
        fail("wrong-error", "%s: message '%s'", what, e.what());
    } catch(std::exception const& e) {
      fail("wrong-error", "%s: %s instead of hilbert_space_too_big", what, e.what());
    }
  }

  // Constructs a space in h[d] from a list that may contain duplicates
  template <class F> void construct(Op const& op, int d, std::vector<SD> const& sp, bool one_by_one, F&& f) {
    MHS r;
    SD const* dup = nullptr;
    int big = 0;
    for(auto const& s : sp) {
      if(!r.insert(s)) {
        dup = &s;
        break;
      }
      if(!r.fits() && one_by_one) {
        big = r.bits();
        break;
      }
    }
    if(!dup && !r.fits()) big = r.bits();
    if(dup || big) {
      std::exception_ptr err;
      if(perform_err(op, [&] { HS t = f(); }, [&] { failed(); }, err)) {
        if(big) {
          check_big(err, big);
          probe(2);
        } else
          check_exists(err, *dup);
      }
      done();
      return;
    }
    if(perform(
           op,
           [&] {
             HS t = f();
             h[d] = std::move(t);
           },
           [&] { failed(); }))
      m[d] = r;
    done();
  }

  void step(Op const& op) {
    what = code_name[op.code];
    Rng r(u64(op.a[3]) * 65599 + u64(op.a[4]));
    int i = op.a[0] % NH, j = op.a[1] % NH, var = op.a[5];
    if(g.verbose) trace("op %d %s: h%d = %s, h%d = %s", sh->cur_op, what, i, text(m[i]).c_str(), j, text(m[j]).c_str());
    switch(op.code) {
    case CTOR_LIST: {
      std::vector<SD> sp;
      std::vector<ESP> es;
      int n = var % 4;
      for(int k = 0; k < n; ++k) {
        sp.push_back(space(r));
        if(k && var % 7 == 0) sp.back() = sp[0];
        es.push_back(make_es<I...>(sp.back()));
      }
      construct(op, i, sp, true, [&]() -> HS {
        switch(n) {
        case 0: return HS();
        case 1: return HS(*es[0]);
        case 2: return HS(*es[0], *es[1]);
        default: return HS(*es[0], *es[1], *es[2]);
        }
      });
      break;
    }
    case CTOR_VEC: {
      std::vector<SD> sp;
      std::vector<ESP> es;
      std::vector<ES*> p;
      int n = var % 7;
      MHS t;
      for(int k = 0; k < n; ++k) {
        SD s = space(r);
        if(t.find(s) >= 0 && var % 5) continue;
        t.insert(s);
        sp.push_back(s);
        es.push_back(make_es<I...>(s));
        p.push_back(es.back().get());
      }
      construct(op, i, sp, false, [&] { return HS(p); });
      break;
    }
    case CTOR_EXPR: from_expr(op, r, i, var); break;
    case ADD: {
      SD s = space(r);
      if(var % 5 == 0 && !m[i].es.empty()) s = m[i].es[r.below(m[i].es.size())]; // a duplicate
      if(var % 5 == 1) s.par = s.alg == lc::boson ? 1L << r.range(20, 40) : s.par;
      ESP es = make_es<I...>(s);
      MHS t = m[i];
      bool dup = !t.insert(s);
      if(dup || !t.fits()) {
        std::exception_ptr err;
        if(perform_err(op, [&] { h[i].add(*es); }, [&] { failed(); }, err)) {
          es.reset();
          if(dup)
            check_exists(err, s);
          else {
            check_big(err, t.bits());
            probe(1);
          }
        }
      } else if(perform(op, [&] { h[i].add(*es); }, [&] { failed(); })) {
        m[i] = t;
        es.reset();
      }
      done();
      break;
    }
    case COPY_ASSIGN:
      if(perform(op, [&] { h[i] = h[j]; }, [&] { failed(); })) m[i] = m[j];
      done();
      break;
    case MOVE_ASSIGN: {
      if(i == j) break;
      attempt(nullptr, [&] { h[i] = std::move(h[j]); });
      m[i] = m[j];
      h[j] = HS(); // moved-from: only assignment is meaningful
      m[j] = MHS();
      done();
      break;
    }
    case COPY_CONS:
      if(perform(
             op,
             [&] {
               HS t(h[j]);
               h[i] = std::move(t);
             },
             [&] { failed(); }))
        m[i] = m[j];
      done();
      break;
    case SELF:
      perform(
          op,
          [&] {
            HS& t = h[i];
            h[i] = t;
          },
          [&] { failed(); });
      done();
      break;
    case SWAP:
      if(i == j) break;
      attempt(nullptr, [&] { std::swap(h[i], h[j]); });
      std::swap(m[i], m[j]);
      done();
      break;
    case QUERY: query(op, r, i, var); break;
    case TRAVERSE: {
      u64 lim = 1 + u64(op.a[3]) % 70;
      bool stopped = false;
      u64 seen = 0;
      if(var % 3 == 0) {
        std::vector<SD> got;
        if(perform(
               op,
               [&] {
                 {
                   Pause p;
                   got.clear();
                 }
                 h[i].foreach_elementary_space([&](ES const& es) {
                   point(K_CB);
                   Pause p;
                   got.push_back(read_es(es));
                 });
               },
               [&] { failed(); }))
          if(!(got == m[i].es)) fail("wrong-space", "foreach_elementary_space() of %s", text(m[i]).c_str());
      } else if(perform(
                    op,
                    [&] {
                      seen = 0;
                      stopped = false;
                      try {
                        foreach(h[i], [&](lc::sv_index_type st) {
                          point(K_CB);
                          Pause p;
                          if(st != m[i].state(seen)) fail("wrong-space", "foreach() of %s", text(m[i]).c_str());
                          if(++seen >= lim) {
                            stopped = true;
                            throw Stop();
                          }
                        });
                      } catch(Stop const&) {}
                    },
                    [&] { failed(); })) {
        if(!stopped && seen != m[i].dim()) fail("wrong-space", "foreach() of %s visits %ld states", text(m[i]).c_str(), long(seen));
      }
      done();
      break;
    }
    case COMPARE: {
      bool e = false, n = false;
      if(perform(
             op,
             [&] {
               e = h[i] == h[j];
               n = h[i] != h[j];
             },
             [&] { failed(); })) {
        bool x = m[i].es.size() == m[j].es.size();
        for(std::size_t k = 0; x && k < m[i].es.size(); ++k)
          x = sd_same(m[i].es[k], m[j].es[k]) && m[i].bit(k) == m[j].bit(k) && n_bits(m[i].es[k]) == n_bits(m[j].es[k]);
        bool dims = true; // spaces of the same bits and different dimensions: either answer is fine
        for(std::size_t k = 0; x && k < m[i].es.size(); ++k) dims = dims && dim(m[i].es[k]) == dim(m[j].es[k]);
        if(n == e || (dims && e != x))
          fail("wrong-value", "%s == %s gives %d", text(m[i]).c_str(), text(m[j]).c_str(), int(e));
        if(x && i != j) probe(3);
      }
      // elementary spaces on their own
      SD sa = space(r), sb = r.chance(1, 3) ? sa : space(r);
      if(r.chance(1, 3)) sb.alg = sa.alg, sb.par = sa.par;
      ESP ea = make_es<I...>(sa), eb = make_es<I...>(sb);
      ESP ec;
      bool eq = false, ne = false, lt = false, gt = false;
      if(perform(
             op,
             [&] {
               ec = ea->clone();
               eq = *ec == *eb;
               ne = *ec != *eb;
               lt = *ec < *eb;
               gt = *ec > *eb;
             },
             [&] { failed(); })) {
        if(eq != sd_same(sa, sb) || ne == eq || lt != sd_less(sa, sb) || gt != sd_less(sb, sa))
          fail("wrong-value", "%s and a copy of %s compare ==%d !=%d <%d >%d", text(sa).c_str(), text(sb).c_str(), int(eq), int(ne), int(lt), int(gt));
        if(!(read_es(*ec) == sa) || !(read_es(*ea) == sa)) fail("wrong-space", "copy of %s", text(sa).c_str());
      }
      done();
      break;
    }
    case CLEAR:
      attempt(nullptr, [&] { h[i] = HS(); });
      m[i] = MHS();
      done();
      break;
    case BUILT_ON: built_on(op, r, i, var); break;
    }
  }

  void from_expr(Op const& op, Rng& r, int d, int var) {
    // expression with one generator of every chosen space and a few products
    typedef lc::expression<double, I...> X;
    std::vector<Letter> ls;
    int n = 1 + var % 5;
    int kind = (var / 5) % 4; // 0: default, 1: bosons, 2: extended, 3: user factory
    for(int k = 0; k < n; ++k) {
      Letter l;
      l.idx = int(r.below(u64(plan.cfg[0])));
      l.a = int(r.below(2));
      l.mult = 0;
      switch(r.below(u64(kind >= 2 ? 6 : 3))) {
      case 0: l.alg = lc::fermion; break;
      case 1: l.alg = kind == 0 && r.chance(3, 4) ? lc::fermion : lc::boson; break;
      case 2:
        l.alg = lc::spin;
        l.mult = r.range(2, 4);
        break;
      case 3: l.alg = CLIFF; break;
      case 4:
        l.alg = TRI;
        l.a = 0;
        break;
      default:
        l.alg = CYC;
        l.a = 0;
      }
      ls.push_back(l);
    }
    X x;
    for(std::size_t k = 0; k < ls.size(); ++k) {
      Word w{ls[k]};
      if(k && r.chance(1, 3)) w.insert(w.begin(), ls[k - 1]);
      x += X(1.0 + double(k), make_mono<I...>(w));
    }
    long bdim = r.chance(1, 6) ? 1L << r.range(10, 40) : r.range(1, 9);
    int missing = kind == 3 && r.chance(1, 4) ? lc::spin : -100;
    // model: which generators are still there
    Poly p = read_expr(x);
    MHS t;
    bool bad = false;
    Letter bl{};
    for(auto const& term : p) {
      for(auto const& l : term.first) {
        bool unknown = kind == 0 ? l.alg != lc::fermion && l.alg != lc::spin
                                 : kind == 1 ? l.alg >= 0 : kind == 2 ? false : l.alg == missing;
        if(unknown) {
          bad = true;
          bl = l;
          break;
        }
        SD s = Factory<I...>::space_of(l, kind == 3 ? bdim : bdim - l.idx);
        if(t.find(s) < 0) t.insert(s);
      }
      if(bad) break;
    }
    auto make = [&]() -> HS {
      switch(kind) {
      case 0: return lc::make_hilbert_space(x);
      case 1: return lc::make_hilbert_space(x, lc::boson_es_constructor(lc::sv_index_type(bdim)));
      case 2: return HS(x, lc::es_constructor<lc::fermion, lc::boson, lc::spin, 1, 3, 4>(lc::sv_index_type(bdim)));
      default: return HS(x, Factory<I...>{bdim, missing});
      }
    };
    auto intact = [&] {
      if(!same(read_expr(x), p)) fail("operand-changed", "%s: the expression changed", what);
      failed();
    };
    if(bad || !t.fits()) {
      std::exception_ptr err;
      if(perform_err(op, [&] { HS q = make(); }, intact, err)) {
        x.clear();
        if(bad) {
          if(!err) fail("missing-error", "%s: a generator without elementary space was accepted", what);
          try {
            std::rethrow_exception(err);
          } catch(lc::es_construction_failure<I...> const& e) {
            Letter l = read_gen(*e.generator_ptr);
            if(l != bl) fail("wrong-error", "%s: error about %s instead of %s", what, text(l).c_str(), text(bl).c_str());
            if(std::string(e.what()) != "Cannot construct elementary space associated with algebra generator " + e.generator_ptr->to_string())
              fail("wrong-error", "%s: message '%s'", what, e.what());
            probe(4);
          } catch(std::exception const& e) {
            fail("wrong-error", "%s: %s instead of es_construction_failure", what, e.what());
          }
        } else
          check_big(err, t.bits());
      }
    } else if(perform(
                  op,
                  [&] {
                    HS q = make();
                    h[d] = std::move(q);
                  },
                  intact)) {
      m[d] = t;
      if(!same(read_expr(x), p)) fail("operand-changed", "%s: the expression changed", what);
    }
    done();
  }

  void query(Op const& op, Rng& r, int i, int var) {
    SD s = space(r);
    if(var % 3 && !m[i].es.empty()) s = m[i].es[r.below(m[i].es.size())];
    ESP es = make_es<I...>(s);
    int pos = m[i].find(s);
    SD f = pos >= 0 ? m[i].es[std::size_t(pos)] : s;
    bool has = false;
    if(perform(op, [&] { has = h[i].has(*es); }, [&] { failed(); }) && has != (pos >= 0))
      fail("wrong-space", "has(%s) is %d in %s", text(s).c_str(), int(has), text(m[i]).c_str());
    int q = (var / 3) % 4;
    if(q == 3 && (dim(f) < 2 || dim(s) < 2)) q = 0; // it has no state 1
    long got = -1;
    auto ask = [&] {
      switch(q) {
      case 0: got = h[i].index(*es); break;
      case 1: got = long(h[i].dim(*es)); break;
      case 2: got = h[i].bit_range(*es).first; break;
      default: got = long(h[i].basis_state_index(*es, 1));
      }
    };
    if(pos >= 0) {
      if(perform(op, ask, [&] { failed(); })) {
        int b = m[i].bit(std::size_t(pos));
        long e = q == 0 ? pos : q == 1 ? long(dim(f)) : q == 2 ? b : 1L << b;
        if(got != e) fail("wrong-space", "query %d of %s gives %ld instead of %ld in %s", q, text(s).c_str(), got, e, text(m[i]).c_str());
      }
    } else {
      std::exception_ptr err;
      if(perform_err(op, ask, [&] { failed(); }, err)) {
        es.reset();
        if(!err) fail("missing-error", "a query for missing space %s was answered", text(s).c_str());
        try {
          std::rethrow_exception(err);
        } catch(NotFound const& e) {
          SD t = read_es(*e.elementary_space_ptr);
          if(!(t == s)) fail("wrong-error", "%s: error about %s instead of %s", what, text(t).c_str(), text(s).c_str());
          if(std::string(e.what()) != "Elementary space not found") fail("wrong-error", "%s: message '%s'", what, e.what());
        } catch(std::exception const& e) {
          fail("wrong-error", "%s: %s instead of elementary_space_not_found", what, e.what());
        }
      }
    }
    done();
  }

  // Things built on a space with a history equal those of the model
  void built_on(Op const& op, Rng& r, int i, int var) {
    MHS const& mm = m[i];
    if(mm.bits() == 0 || mm.dim() > 4096 || mm.bits() > 20) return;
    int M = 0;
    for(auto const& s : mm.es) M += s.alg == lc::fermion;
    switch(var % 3) {
    case 0: { // compressed view
      std::vector<double> v(mm.dim(), 0.0);
      std::vector<u64> got;
      if(!perform(
             op,
             [&] {
               auto view = lc::make_comp_state_view(v, h[i]);
               got.resize(std::min<u64>(mm.dim(), 64));
               for(u64 k = 0; k < got.size(); ++k) got[k] = view.map_index(mm.state(k * mm.dim() / got.size()));
             },
             [&] { failed(); }))
        break;
      for(u64 k = 0; k < got.size(); ++k)
        if(got[k] != k * mm.dim() / got.size())
          fail("wrong-space", "compressed view of %s maps state %ld to %ld", text(mm).c_str(), long(mm.state(k)), long(got[k]));
      break;
    }
    case 1: { // sector states
      if(mm.sparse() || mm.dim() > 512) break;
      unsigned N = unsigned(r.below(u64(M) + 1));
      std::vector<lc::sv_index_type> st;
      if(!perform(op, [&] { st = lc::n_fermion_sector_basis_states(h[i], N); }, [&] { failed(); })) break;
      std::set<u64> exp, got(st.begin(), st.end());
      for(u64 k = 0; k < mm.dim(); ++k)
        if(unsigned(__builtin_popcountll(k & ((u64(1) << M) - 1))) == N) exp.insert(k);
      if(got != exp || st.size() != exp.size()) fail("wrong-space", "sector states of %s", text(mm).c_str());
      break;
    }
    default: { // the vacuum excited in one space
      if(mm.es.empty()) break;
      std::size_t k = r.below(mm.es.size());
      SD s = mm.es[k];
      Letter l{s.alg, s.idx, 1, 0};
      if(s.alg == lc::spin) {
        l.a = 0;
        l.mult = int(s.par);
      }
      if(s.alg >= 0) return;
      if(dim(s) < 2) return;
      lc::expression<double, I...> x(1.0, make_mono<I...>(Word{l}));
      lc::sparse_state_vector<double> in(h[i].vec_size());
      in[0] = 1;
      u64 to = 0;
      if(!perform(
             op,
             [&] {
               auto lop = lc::make_loperator(x, h[i]);
               auto out = lop(in);
               Pause p;
               foreach(out, [&](lc::sv_index_type n, double const&) { to = n; });
             },
             [&] { failed(); }))
        break;
      if(to != u64(1) << mm.bit(k)) fail("wrong-space", "%s applied to the vacuum of %s gives state %ld", text(l).c_str(), text(mm).c_str(), long(to));
    }
    }
    done();
  }

  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
    check_all("finally");
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {r.range(1, 6), r.chance(2, 3) ? 1 : 0, r.chance(1, 4) ? 600 : 24};
  int n = size ? size : r.range(4, 26);
  bool on[NCODES];
  for(int i = 0; i < NCODES; ++i) on[i] = r.chance(3, 4);
  on[ADD] = on[CTOR_LIST] = true;
  for(int i = 0; i < n; ++i) {
    Op o;
    do {
      o.code = int(r.below(NCODES));
      if(r.chance(1, 4)) o.code = ADD;
    } while(!on[o.code]);
    for(int& a : o.a) a = int(r.below(1 << 15));
    if(r.chance(1, 2)) o.a[0] &= 1; // concentrate on few spaces
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<UIdx> TheRun;
#define SIM_NAME "H0"
#elif SIM_CONF == 1
typedef Run<std::string, int> TheRun;
#define SIM_NAME "H1"
#else
typedef Run<dyn_indices> TheRun;
#define SIM_NAME "H2"
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  return std::string(code_name[o.code % NCODES]) + " h" + std::to_string(o.a[0] % 4) + " h" + std::to_string(o.a[1] % 4);
}
} // namespace
SIM_SCENARIO(H, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_IDX | 1u << K_GEN | 1u << K_ES | 1u << K_ESC | 1u << K_CB, describe)
} // namespace sim
