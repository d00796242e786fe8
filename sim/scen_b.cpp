// Scenario B: basis maps, sector lists and view layouts, interrupted and repeated.
#include "views.hpp"

namespace sim {
namespace {

enum Code { MAP_LIST, MAP_OP, MAP_COMP, MAP_COPY, INVERSE, SECTOR, MULTI, SIZES, VIEW, BAD_SECTOR, BAD_MULTI, SPARSE, NCODES };
const char* const code_name[NCODES] = {"mapper-from-list", "mapper-from-operator", "mapper-from-compositions", "copy-mapper", "inverse-map", "sector-list",
                                       "multisector-list", "sizes", "view-layout", "missing-sector", "bad-multisector", "sparse-refused"};

typedef unsigned __int128 u128;
u128 choose(int n, int k) {
  if(k > n) return 0;
  std::vector<u128> row(std::size_t(k) + 1, 0);
  row[0] = 1;
  for(int i = 0; i < n; ++i)
    for(int j = k; j > 0; --j) row[std::size_t(j)] += row[std::size_t(j) - 1];
  return row[std::size_t(k)];
}

template <class S, typename... I> struct Run {
  typedef VSpace<S, I...> VS;
  typedef typename VS::SDesc SDesc;
  typedef typename VS::MaskN MaskN;
  typedef lc::hilbert_space<I...> HS;
  typedef lc::expression<S, I...> X;
  typedef std::vector<lc::sv_index_type> List;
  enum { NM = 3, real = from_c<S>::real };

  Plan const& plan;
  Rng r0;
  VS sp;
  MHS const& m;
  std::unique_ptr<lc::basis_mapper> mp[NM];
  std::set<u64> keys[NM];
  std::map<u64, u64> pos[NM]; // as first seen: may not change afterwards
  const char* what = "";

  explicit Run(Plan const& pl) : plan(pl), r0(pl.seed ^ u64(pl.cfg[0]) * 7919), sp(r0, pl.cfg[1], pl.cfg[2]), m(sp.m) {}

  static std::map<u64, u64> read(lc::basis_mapper const& b) {
    std::map<u64, u64> r;
    for(auto const& x : b.map()) r.emplace(x.first, x.second);
    if(r.size() != b.map().size()) fail("wrong-map", "a basis state is mapped twice");
    return r;
  }
  void all(const char* when) {
    quiet([&] {
      for(int i = 0; i < NM; ++i)
        if(mp[i]) {
          if(read(*mp[i]) != pos[i] || mp[i]->size() != pos[i].size()) fail("map-changed", "%s %s: mapper %d changed", what, when, i);
          log_u64(pos[i].size());
        }
    });
  }
  // A new mapper: keys are right, positions are contiguous
  void adopt(int i, std::unique_ptr<lc::basis_mapper> n, std::set<u64> const& ks) {
    auto r = quiet([&] { return read(*n); });
    std::set<u64> k, p;
    for(auto const& x : r) {
      k.insert(x.first);
      p.insert(x.second);
    }
    if(k != ks) fail("wrong-map", "%s: %zu basis states are mapped instead of %zu, or other ones", what, k.size(), ks.size());
    if(n->size() != ks.size()) fail("wrong-map", "%s: size() is %llu instead of %zu", what, (unsigned long long)n->size(), ks.size());
    if(p.size() != r.size() || (p.size() && *p.rbegin() != p.size() - 1)) fail("wrong-map", "%s: positions are not contiguous", what);
    mp[i] = std::move(n);
    keys[i] = ks;
    pos[i] = r;
  }
  X random_expr(Rng& r, int cnt, bool creating) {
    X x;
    for(int i = 0; i < cnt; ++i) {
      cplx c(r.range(1, 3), real ? 0 : r.range(-1, 1));
      Word w;
      int len = 1 + int(r.below(2));
      for(int k = 0; k < len; ++k) {
        Letter l = letter_on(r, m);
        if(creating && (l.alg == lc::fermion || l.alg == lc::boson)) l.a = 1;
        if(creating && l.alg == lc::spin) l.a = 0;
        w.push_back(l);
      }
      x += X(from_c<S>::make(c), make_mono<I...>(w));
    }
    return x;
  }
  // States contributing to O_1^{n_1} ... O_M^{n_M} |vac>; false: an amplitude cancels inexactly
  bool compositions(std::vector<Poly> const& ops, std::size_t left, int n, Amp const& st, std::set<u64>& out) const {
    if(left == 0) {
      if(n == 0)
        for(auto const& a : st) out.insert(a.first);
      return true;
    }
    Amp cur = st;
    for(int k = 0; k <= n; ++k) {
      if(!compositions(ops, left - 1, n - k, cur, out)) return false;
      if(k == n) break;
      double scale = 0;
      Amp next;
      for(auto const& a : cur)
        for(auto const& b : act(ops[left - 1], m, a.first)) {
          next[b.first] += a.second * b.second;
          scale = std::max(scale, std::abs(a.second * b.second));
        }
      for(auto const& a : cur)
        if(fragile(ops[left - 1], m, a.first)) return false;
      for(auto it = next.begin(); it != next.end();) {
        double x = std::abs(it->second);
        if(x != 0 && x < 1e-6 * scale) return false;
        if(x == 0 || x < 1e-9)
          it = next.erase(it);
        else
          ++it;
      }
      if(scale > 1e9) return false;
      cur = next;
    }
    return true;
  }
  void check_list(List const& l, std::vector<MaskN> const& masks, const char* name) {
    std::vector<u64> e = sp.sector_states(masks), got(l.begin(), l.end());
    std::sort(got.begin(), got.end());
    if(got != e) fail("wrong-list", "%s: the list has %zu basis states instead of %zu, or other ones", name, got.size(), e.size());
    for(u64 x : l) log_u64(x);
  }
  template <class V, class Vec> void check_layout(V const& v, Vec const& store, List const& l, const char* name) {
    for(std::size_t k = 0; k < l.size(); ++k)
      if(v.map_index(l[k]) != k)
        fail("wrong-layout", "%s: basis state %llu is in position %llu of the view and %zu of the list", name, (unsigned long long)l[k],
             (unsigned long long)v.map_index(l[k]), k);
    std::size_t k = 0;
    (void)store;
    foreach(v, [&](lc::sv_index_type n, S const& x) {
      if(k >= l.size() || n != l[k] || val(x) != cplx(double(k + 1)))
        fail("wrong-layout", "%s: visit %zu is %llu with (%g,%g)", name, k, (unsigned long long)n, val(x).real(), val(x).imag());
      ++k;
    });
    if(k != l.size()) fail("wrong-layout", "%s: %zu visits instead of %zu", name, k, l.size());
  }
  static std::vector<S> numbered(std::size_t n) {
    std::vector<S> v;
    for(std::size_t k = 0; k < n; ++k) v.push_back(from_c<S>::make(double(k + 1)));
    return v;
  }
  void expect_error(Op const& op, Fn f, std::string const& msg, bool absorb) {
    std::exception_ptr err;
    auto body = [&] {
      err = nullptr;
      try {
        f();
      } catch(Injected const&) {
        throw;
      } catch(std::bad_alloc const&) {
        throw;
      } catch(std::exception const&) {
        err = std::current_exception();
      }
    };
    if(!perform(op, body, [&] { all("failed"); }, absorb)) return;
    if(!err) fail("missing-error", "%s: no error was raised, expected '%s'", what, msg.c_str());
    try {
      std::rethrow_exception(err);
    } catch(std::out_of_range const& e) {
      fail("wrong-error", "%s: out_of_range '%s'", what, e.what());
    } catch(std::runtime_error const& e) {
      if(e.what() != msg) fail("wrong-error", "%s: '%s' instead of '%s'", what, e.what(), msg.c_str());
      probe(52);
    } catch(std::exception const& e) {
      fail("wrong-error", "%s: '%s'", what, e.what());
    }
  }

  void step(Op const& op) {
    what = code_name[op.code];
    int i = op.a[0] % NM, j = op.a[1] % NM, var = op.a[5];
    Rng r(u64(op.a[2]) * 77777 + u64(op.a[3]));
    if(g.verbose) trace("op %d %s mapper %d over %s", sh->cur_op, what, i, text(m).c_str());
    auto failed = [&] { all("failed"); };
    switch(op.code) {
    case MAP_LIST: {
      std::set<u64> ks;
      List l;
      quiet([&] {
        u64 n = r.below(40);
        for(u64 k = 0; k < n; ++k) ks.insert(r.chance(1, 6) ? r.next() : m.state(r.below(m.dim())));
        l.assign(ks.begin(), ks.end());
        for(std::size_t k = l.size(); k > 1; --k) std::swap(l[k - 1], l[std::size_t(r.below(k))]);
      });
      bool repeats = l.size() > 2 && r.chance(1, 4);
      if(repeats)
        quiet([&] {
          for(int k = r.range(1, 3); k > 0; --k) {
            auto x = l[std::size_t(r.below(l.size()))];
            l.insert(l.begin() + long(r.below(l.size())), x);
          }
        });
      std::unique_ptr<lc::basis_mapper> n;
      if(perform(op, [&] { n.reset(new lc::basis_mapper(l)); }, failed)) {
        adopt(i, std::move(n), ks);
        for(std::size_t k = 0; !repeats && k < l.size(); ++k)
          if(pos[i][l[k]] != k) fail("wrong-map", "%s: element %zu of the list is mapped to %llu", what, k, (unsigned long long)pos[i][l[k]]);
      }
      break;
    }
    case MAP_OP: {
      X ex(quiet([&] { return random_expr(r, 1 + int(r.below(6)), r.chance(3, 4)); }));
      Poly q = read_expr(ex);
      if(fragile(q, m, 0)) return;
      LOp<S> o(ex, sp.hs);
      std::set<u64> ks;
      for(auto const& a : act(q, m, 0)) ks.insert(a.first);
      std::unique_ptr<lc::basis_mapper> n;
      if(perform(op, [&] { n.reset(new lc::basis_mapper(o, sp.hs)); }, failed)) {
        adopt(i, std::move(n), ks);
        if(ks.size() > 2) probe(50);
      }
      break;
    }
    case MAP_COMP: {
      std::vector<LOp<S>> os;
      std::vector<Poly> qs;
      int cnt = int(r.below(4)), N = int(r.below(4));
      quiet([&] {
        for(int k = 0; k < cnt; ++k) {
          X ex = random_expr(r, 1 + int(r.below(3)), r.chance(4, 5));
          qs.push_back(read_expr(ex));
          os.emplace_back(ex, sp.hs);
        }
      });
      std::set<u64> ks;
      Amp vac;
      vac[0] = 1;
      if(!compositions(qs, qs.size(), N, vac, ks)) return;
      if(N == 0 || cnt == 0) ks = {0};
      std::unique_ptr<lc::basis_mapper> n;
      if(perform(op, [&] { n.reset(new lc::basis_mapper(os, sp.hs, unsigned(N))); }, failed)) {
        adopt(i, std::move(n), ks);
        if(ks.size() > 2) probe(51);
      }
      break;
    }
    case MAP_COPY: {
      if(!mp[i] || i == j) return;
      std::unique_ptr<lc::basis_mapper> n;
      if(perform(op, [&] { n.reset(new lc::basis_mapper(*mp[i])); }, failed)) {
        auto q = quiet([&] { return read(*n); });
        if(q != pos[i]) fail("wrong-map", "%s: the copy differs", what);
        if(var & 1) {
          mp[i].reset();
          pos[j] = pos[i];
          keys[j] = keys[i];
          mp[j] = std::move(n);
        } else
          adopt(j, std::move(n), keys[i]);
      }
      break;
    }
    case INVERSE: {
      if(!mp[i]) return;
      std::unordered_map<lc::sv_index_type, lc::sv_index_type> inv;
      if(perform(op, [&] { inv = mp[i]->inverse_map(); }, failed)) {
        if(inv.size() != pos[i].size()) fail("wrong-map", "%s: %zu entries instead of %zu", what, inv.size(), pos[i].size());
        for(auto const& x : pos[i])
          if(!inv.count(x.second) || inv[x.second] != x.first) fail("wrong-map", "%s: position %llu is wrong", what, (unsigned long long)x.second);
      }
      break;
    }
    case SECTOR: {
      if(m.sparse()) return;
      int N = r.range(0, sp.M);
      if(sp.big) N = r.chance(1, 2) ? r.range(0, std::min(sp.M, 3)) : r.range(sp.M - std::min(sp.M, 3), sp.M);
      std::vector<MaskN> masks(1, MaskN(sp.fmask, N));
      double c = sp.sector_count(masks);
      if(c > 3000) return;
      List l;
      if(!perform(op, [&] { l = lc::n_fermion_sector_basis_states(sp.hs, unsigned(N)); }, failed)) break;
      check_list(l, masks, what);
      quiet([&] {
        if(lc::n_fermion_sector_size(sp.hs, unsigned(N)) != l.size())
          fail("wrong-size", "the size of the sector is %llu, but there are %zu states", (unsigned long long)lc::n_fermion_sector_size(sp.hs, unsigned(N)), l.size());
        auto st = numbered(l.size());
        check_layout(lc::make_nfs_view(st, sp.hs, unsigned(N)), st, l, "sector view");
        if(var & 1) check_layout(lc::make_const_nfs_view(st, sp.hs, unsigned(N)), st, l, "constant sector view");
      });
      std::unique_ptr<lc::basis_mapper> n;
      quiet([&] { n.reset(new lc::basis_mapper(l)); });
      adopt(i, std::move(n), std::set<u64>(l.begin(), l.end()));
      for(std::size_t k = 0; k < l.size(); ++k)
        if(pos[i][l[k]] != k) fail("wrong-map", "%s: element %zu of the list is mapped to %llu", what, k, (unsigned long long)pos[i][l[k]]);
      if(l.size() > 3) probe(53);
      break;
    }
    case MULTI: {
      if(m.sparse()) return;
      std::vector<SDesc> sd;
      std::vector<MaskN> masks;
      quiet([&] { sp.random_sectors(r, sd, masks); });
      double c = sp.sector_count(masks);
      if(c > 3000) return;
      List l;
      if(!perform(op, [&] { l = lc::n_fermion_multisector_basis_states(sp.hs, sd); }, failed, true)) break;
      check_list(l, masks, what);
      quiet([&] {
        if(lc::n_fermion_multisector_size(sp.hs, sd) != l.size())
          fail("wrong-size", "the size of the multisector is %llu, but there are %zu states", (unsigned long long)lc::n_fermion_multisector_size(sp.hs, sd),
               l.size());
        auto st = numbered(l.size());
        check_layout(lc::make_nfms_view(st, sp.hs, sd), st, l, "multisector view");
        if(var & 1) check_layout(lc::make_const_nfms_view(st, sp.hs, sd), st, l, "constant multisector view");
      });
      if(l.size() > 3 && masks.size() > 1) probe(54);
      break;
    }
    case SIZES: { // arbitrary sizes, beyond what can be listed
      if(m.sparse()) return;
      int N = r.range(0, sp.M + 1);
      if(sp.big && r.chance(1, 2)) N = std::max(0, sp.M / 2 + r.range(-2, 2));
      u128 e = choose(sp.M, N) << (m.bits() - sp.M);
      if(e >> 64 == 0) {
        u64 got = 0;
        if(perform(op, [&] { got = lc::n_fermion_sector_size(sp.hs, unsigned(N)); }, failed) && got != u64(e))
          fail("wrong-size", "the size of the sector with %d of %d fermions (%d bits) is %llu instead of %llu", N, sp.M, m.bits(), (unsigned long long)got,
               (unsigned long long)u64(e));
        if(e >> 40) probe(55);
      }
      std::vector<SDesc> sd;
      std::vector<MaskN> masks;
      quiet([&] { sp.random_sectors(r, sd, masks); });
      u128 f = 1;
      int used = 0;
      bool over = false;
      for(auto const& k : masks) {
        int c = __builtin_popcountll(k.first);
        used += c;
        u128 b = choose(c, k.second);
        over = over || (f * b) >> 64;
        f = f * b;
      }
      if(m.bits() - used > 63) over = true;
      if(!over) {
        f <<= (m.bits() - used);
        over = f >> 64;
      }
      if(!over) {
        u64 got = quiet([&] { return lc::n_fermion_multisector_size(sp.hs, sd); });
        if(got != u64(f))
          fail("wrong-size", "the size of a multisector is %llu instead of %llu", (unsigned long long)got, (unsigned long long)u64(f));
        log_u64(got);
      }
      break;
    }
    case VIEW: { // all kinds of views, layout only
      int k = op.a[1] % VS::n_kinds();
      if(!sp.possible(k) || VS::kind(k).shape == VEC) return;
      auto p = quiet([&] { return sp.prepare(r, k); });
      if(p.k < 0) return;
      typename VS::Ptr v;
      bool ms = VS::kind(k).shape == NFMS;
      if(perform(op, [&] { v = sp.build(p, VS::kind(k).konst && var & 1); }, failed, ms)) {
        sp.check_slots(p, *v);
        if(p.full && ms) {
          List l = quiet([&] { return lc::n_fermion_multisector_basis_states(sp.hs, p.sectors); });
          for(std::size_t q = 0; q < l.size(); ++q)
            if(quiet([&] { return v->slot(l[q]); }) != q) fail("wrong-layout", "%s: position of state %zu of the list", VS::kind(k).name, q);
          if(l.size() != p.model->keys.size()) fail("wrong-list", "%s: %zu states in the list", VS::kind(k).name, l.size());
        }
        if(p.full && VS::kind(k).shape == NFS) {
          List l = quiet([&] { return lc::n_fermion_sector_basis_states(sp.hs, unsigned(p.n)); });
          for(std::size_t q = 0; q < l.size(); ++q)
            if(quiet([&] { return v->slot(l[q]); }) != q) fail("wrong-layout", "%s: position of state %zu of the list", VS::kind(k).name, q);
        }
        if(VS::kind(k).shape == COMP)
          for(u64 n : p.model->keys)
            if(quiet([&] { return v->slot(n); }) != m.number(n)) fail("wrong-layout", "%s: position of state %llu", VS::kind(k).name, (unsigned long long)n);
      }
      break;
    }
    case BAD_SECTOR: {
      if(m.sparse()) return;
      unsigned N = unsigned(sp.M) + 1 + unsigned(r.below(3));
      std::string msg = "Sector with " + std::to_string(N) + " fermions does not exist (there are " + std::to_string(sp.M) + " fermionic modes in it)";
      std::vector<S> st = numbered(2);
      if(var & 1)
        expect_error(op, [&] { (void)lc::n_fermion_sector_basis_states(sp.hs, N); }, msg, false);
      else
        expect_error(op, [&] { (void)lc::make_nfs_view(st, sp.hs, N); }, msg, false);
      break;
    }
    case BAD_MULTI: {
      if(m.sparse() || sp.M == 0) return;
      std::vector<SDesc> sd;
      std::vector<MaskN> masks;
      std::string msg;
      std::vector<S> st = numbered(2);
      int wrong = int(r.below(3)), absent = 2 * N_IDX - 1;
      bool ok = quiet([&] {
        sp.random_sectors(r, sd, masks);
        if(sd.empty()) sd.resize(1), sd[0].N = 0;
        std::size_t q = std::size_t(r.below(sd.size()));
        if(wrong == 0) {
          absent = 40 + int(r.below(60));
          while(m.find(SD{lc::fermion, absent, 2}) >= 0) ++absent;
          sd[q].indices.insert(Indices<I...>::make(absent));
          msg = "Fermionic elementary space with indices " + lc::tuple_to_string(Indices<I...>::make(absent)) + " is not part of this Hilbert space";
        } else if(wrong == 1) {
          for(auto const& x : sd)
            if(!x.indices.empty()) {
              SDesc d;
              d.indices.insert(*x.indices.begin());
              d.N = 0;
              sd.push_back(d);
              msg = "Some of the sectors overlap";
              return true;
            }
          return false;
        } else {
          for(std::size_t k = 0; k < sd.size(); ++k)
            if(!sd[k].indices.empty()) {
              sd[k].N = unsigned(sd[k].indices.size()) + 1 + unsigned(r.below(2));
              msg = "Sector with " + std::to_string(sd[k].N) + " fermions does not exist (there are " + std::to_string(sd[k].indices.size()) +
                    " fermionic modes in it)";
              return true;
            }
          return false;
        }
        return true;
      });
      if(!ok) return;
      if(var % 3 == 0 && wrong < 2)
        expect_error(op, [&] { (void)lc::n_fermion_multisector_size(sp.hs, sd); }, msg, true);
      else if(var % 2)
        expect_error(op, [&] { (void)lc::n_fermion_multisector_basis_states(sp.hs, sd); }, msg, true);
      else
        expect_error(op, [&] { (void)lc::make_nfms_view(st, sp.hs, sd); }, msg, true);
      break;
    }
    case SPARSE: {
      if(!m.sparse()) return;
      std::vector<SDesc> none;
      std::vector<S> st = numbered(2);
      std::string tail = ": sparse Hilbert spaces are not supported";
      switch(var % 6) {
      case 0: expect_error(op, [&] { (void)lc::n_fermion_sector_size(sp.hs, 0); }, "n_fermion_sector_size" + tail, false); break;
      case 1: expect_error(op, [&] { (void)lc::n_fermion_multisector_size(sp.hs, none); }, "n_fermion_multisector_size" + tail, false); break;
      case 2: expect_error(op, [&] { (void)lc::n_fermion_sector_basis_states(sp.hs, 0); }, "n_fermion_sector_basis_states" + tail, false); break;
      case 3: expect_error(op, [&] { (void)lc::n_fermion_multisector_basis_states(sp.hs, none); }, "n_fermion_multisector_basis_states" + tail, false); break;
      case 4: expect_error(op, [&] { (void)lc::make_nfs_view(st, sp.hs, 0); }, "n_fermion_sector_view" + tail, false); break;
      case 5: expect_error(op, [&] { (void)lc::make_nfms_view(st, sp.hs, none); }, "n_fermion_multisector_view" + tail, true); break;
      }
      break;
    }
    }
    all("completed");
  }

  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {int(r.below(1000)), int(r.below(3)), r.range(1, 15)};
  if(p.cfg[1] && r.chance(1, 2)) p.cfg[2] |= 1;
  int n = size ? size : r.range(4, 16);
  for(int i = 0; i < n; ++i) {
    Op o;
    o.code = int(r.below(NCODES));
    if(r.chance(1, 3)) o.code = r.chance(1, 2) ? MAP_COMP : r.chance(1, 2) ? SECTOR : MULTI;
    for(int& a : o.a) a = int(r.below(1 << 15));
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<Scal<0>, UIdx> TheRun;
#define SIM_NAME "B0"
#elif SIM_CONF == 1
typedef Run<double, int> TheRun;
#define SIM_NAME "B1"
#else
typedef Run<cplx, dyn_indices> TheRun;
#define SIM_NAME "B2"
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) { return std::string(code_name[o.code % NCODES]) + " mapper " + std::to_string(o.a[0] % 3); }
} // namespace
SIM_SCENARIO(B, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_GEN | 1u << K_SCALAR | 1u << K_IDX | 1u << K_ES, describe)
} // namespace sim
