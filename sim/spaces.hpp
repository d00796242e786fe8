// Elementary spaces, Hilbert spaces and their models.
#ifndef SIM_SPACES_HPP
#define SIM_SPACES_HPP

#include "userlib.hpp"

#include <algorithm>
#include <set>

namespace sim {

// Descriptor of an elementary space. par: boson cutoff, spin multiplicity, dimension of a user space
struct SD {
  int alg;
  int idx;
  long par;
};
inline bool operator==(SD const& a, SD const& b) { return a.alg == b.alg && a.idx == b.idx && a.par == b.par; }
inline u64 dim(SD const& s) { return s.alg == lc::fermion ? 2 : u64(s.par); }
inline int n_bits(SD const& s) {
  int b = 0;
  while((u64(1) << b) < dim(s)) ++b;
  return b;
}
// Documented order and identity of elementary spaces
inline bool sd_less(SD const& a, SD const& b) {
  if(a.alg != b.alg) return a.alg < b.alg;
  if(a.alg == lc::spin && a.par != b.par) return a.par < b.par;
  return a.idx < b.idx;
}
inline bool sd_same(SD const& a, SD const& b) { return !sd_less(a, b) && !sd_less(b, a); }
std::string text(SD const& s);

//---------------------------------------------------------------- user-supplied elementary space
struct USpaceTag {
  virtual ~USpaceTag() {}
  virtual SD sd() const = 0;
};
template <typename... I> struct UES : lc::elementary_space<I...>, USpaceTag {
  typedef lc::elementary_space<I...> base;
  int alg;
  long d;
  int* guard;
  UES(int alg, long d, std::tuple<I...> const& ind) : base(ind), alg(alg), d(d), guard(new int(int(d))) { ++g.live_user; }
  UES(UES const& o) : base(static_cast<base const&>(o)), alg(o.alg), d(o.d), guard(new int(*o.guard)) { ++g.live_user; }
  ~UES() override {
    *guard = -1;
    delete guard;
    --g.live_user;
  }
  std::unique_ptr<base> clone() const override {
    point(K_ES);
    return std::unique_ptr<base>(new UES(*this));
  }
  int algebra_id() const override { return alg; }
  lc::sv_index_type dim() const override {
    point(K_ES);
    if(*guard != int(d)) fail("stale-object", "a destroyed elementary space is used");
    return lc::sv_index_type(d);
  }
  int n_bits() const override {
    point(K_ES);
    int b = 0;
    while((1L << b) < d) ++b;
    return b;
  }
  SD sd() const override { return SD{alg, index_id(base::indices()), *guard}; }

protected:
  bool equal(base const& es) const override {
    point(K_ES);
    return base::equal(es);
  }
  bool less(base const& es) const override {
    point(K_ES);
    return base::less(es);
  }
  bool greater(base const& es) const override {
    point(K_ES);
    return base::greater(es);
  }
};

template <typename... I> std::unique_ptr<lc::elementary_space<I...>> make_es(SD const& s) {
  auto t = Indices<I...>::make(s.idx);
  typedef lc::elementary_space<I...> B;
  switch(s.alg) {
  case lc::fermion: return std::unique_ptr<B>(new lc::elementary_space_fermion<I...>(t));
  case lc::boson: return std::unique_ptr<B>(new lc::elementary_space_boson<I...>(lc::sv_index_type(s.par), t));
  case lc::spin: return std::unique_ptr<B>(new lc::elementary_space_spin<I...>(double(s.par - 1) / 2, t));
  default: return std::unique_ptr<B>(new UES<I...>(s.alg, s.par, t));
  }
}
template <typename... I> SD read_es(lc::elementary_space<I...> const& es) {
  if(auto const* u = dynamic_cast<USpaceTag const*>(&es)) return u->sd();
  SD s;
  s.alg = es.algebra_id();
  s.idx = index_id(es.indices());
  if(s.idx < 0) fail("bad-space", "an elementary space has indices that were never created");
  s.par = long(es.dim());
  return s;
}

//---------------------------------------------------------------- model of a Hilbert space
struct MHS {
  std::vector<SD> es; // sorted, no two the same
  int find(SD const& s) const {
    for(std::size_t i = 0; i < es.size(); ++i)
      if(sd_same(es[i], s)) return int(i);
    return -1;
  }
  // false: already there
  bool insert(SD const& s) {
    if(find(s) >= 0) return false;
    es.insert(std::upper_bound(es.begin(), es.end(), s, sd_less), s);
    return true;
  }
  int bit(std::size_t i) const {
    int b = 0;
    for(std::size_t k = 0; k < i; ++k) b += n_bits(es[k]);
    return b;
  }
  int bits() const { return bit(es.size()); }
  u64 dim() const {
    u64 d = 1;
    for(auto const& s : es) d *= sim::dim(s);
    return d;
  }
  bool sparse() const { return (u64(1) << bits()) > dim(); }
  // k-th basis state
  u64 state(u64 k) const {
    u64 r = 0;
    int b = 0;
    for(auto const& s : es) {
      r |= (k % sim::dim(s)) << b;
      k /= sim::dim(s);
      b += n_bits(s);
    }
    return r;
  }
  bool is_state(u64 st) const {
    int b = 0;
    for(auto const& s : es) {
      if(((st >> b) & ((u64(1) << n_bits(s)) - 1)) >= sim::dim(s)) return false;
      b += n_bits(s);
    }
    return b >= 64 || (st >> b) == 0;
  }
  u64 number(u64 st) const { // inverse of state()
    u64 r = 0, str = 1;
    int b = 0;
    for(auto const& s : es) {
      r += ((st >> b) & ((u64(1) << n_bits(s)) - 1)) * str;
      str *= sim::dim(s);
      b += n_bits(s);
    }
    return r;
  }
  bool fits() const { return bits() <= 63; }
};
std::string text(MHS const& m);

struct Stop {}; // thrown by the harness to abandon a traversal

// All queries to a Hilbert space, compared with the model (no faults)
template <typename... I> void check_hs(lc::hilbert_space<I...>& hs, MHS const& m, const char* where, u64 n_states = 48) {
  quiet([&] {
    std::string desc;
    auto bad = [&](const char* q, long got, long exp) {
      fail("wrong-space", "%s: %s is %ld instead of %ld in Hilbert space %s", where, q, got, exp, text(m).c_str());
    };
    if(hs.size() != m.es.size()) bad("size()", long(hs.size()), long(m.es.size()));
    if(hs.total_n_bits() != m.bits()) bad("total_n_bits()", hs.total_n_bits(), m.bits());
    if(hs.dim() != m.dim()) bad("dim()", long(hs.dim()), long(m.dim()));
    if(get_dim(hs) != m.dim()) bad("get_dim()", long(get_dim(hs)), long(m.dim()));
    if(hs.vec_size() != u64(1) << m.bits()) bad("vec_size()", long(hs.vec_size()), 1L << m.bits());
    if(get_vec_size(hs) != u64(1) << m.bits()) bad("get_vec_size()", long(get_vec_size(hs)), 1L << m.bits());
    if(hs.is_sparse() != m.sparse()) bad("is_sparse()", hs.is_sparse(), m.sparse());
    std::size_t k = 0;
    hs.foreach_elementary_space([&](lc::elementary_space<I...> const& es) {
      if(k >= m.es.size()) bad("number of visited elementary spaces", long(k + 1), long(m.es.size()));
      SD s = read_es(es);
      if(!(s == m.es[k]))
        fail("wrong-space", "%s: elementary space %zu is %s instead of %s", where, k, text(s).c_str(), text(m.es[k]).c_str());
      ++k;
    });
    if(k != m.es.size()) bad("number of visited elementary spaces", long(k), long(m.es.size()));
    for(k = 0; k < m.es.size(); ++k) {
      auto es = make_es<I...>(m.es[k]);
      int b = m.bit(k);
      if(!hs.has(*es)) bad("has()", 0, 1);
      if(hs.index(*es) != int(k)) bad("index()", hs.index(*es), long(k));
      if(hs.dim(*es) != dim(m.es[k])) bad("dim(es)", long(hs.dim(*es)), long(dim(m.es[k])));
      auto r = hs.bit_range(*es);
      if(r.first != b) bad("bit_range().first", r.first, b);
      if(r.second != b + n_bits(m.es[k]) - 1) bad("bit_range().second", r.second, b + n_bits(m.es[k]) - 1);
      if(dim(m.es[k]) > 1) {
        u64 n = (m.es[k].par + k) % dim(m.es[k]);
        if(hs.basis_state_index(*es, n) != n << b) bad("basis_state_index()", long(hs.basis_state_index(*es, n)), long(n << b));
      }
    }
    for(int alg = -4; alg < 6; ++alg) {
      int lo = 1000, hi = -1000;
      for(k = 0; k < m.es.size(); ++k)
        if(m.es[k].alg == alg) {
          lo = std::min(lo, m.bit(k));
          hi = std::max(hi, m.bit(k) + n_bits(m.es[k]) - 1);
        }
      if(hs.has_algebra(alg) != (lo != 1000)) bad("has_algebra()", hs.has_algebra(alg), lo != 1000);
      if(lo == 1000) {
        if((sh->cur_op + alg + 4) % 10) continue; // exceptions are slow
        try {
          hs.algebra_bit_range(alg);
          bad("algebra_bit_range() of a missing algebra", 1, 0);
        } catch(std::runtime_error const& e) {
          if(std::string(e.what()) != "No elementary spaces with algebra ID " + std::to_string(alg))
            fail("wrong-error", "%s: unexpected message '%s'", where, e.what());
        }
      } else {
        auto const& r = hs.algebra_bit_range(alg);
        for(auto const& other : m.es) // a result stays what it is while other questions are answered
          if(other.alg != alg) hs.algebra_bit_range(other.alg);
        if(r.first != lo) bad("algebra_bit_range().first", r.first, lo);
        if(r.second != hi) bad("algebra_bit_range().second", r.second, hi);
      }
    }
    u64 d = m.dim(), seen = 0;
    try {
      foreach(hs, [&](lc::sv_index_type st) {
        if(seen >= d) bad("number of basis states", long(seen + 1), long(d));
        if(st != m.state(seen)) bad("basis state", long(st), long(m.state(seen)));
        if(++seen >= n_states && seen < d) throw Stop();
      });
      if(seen != d) bad("number of basis states", long(seen), long(d));
    } catch(Stop const&) {}
    log_u64(hs.dim());
    log_u64(u64(hs.total_n_bits()) << 8 ^ hs.size());
  });
}

//---------------------------------------------------------------- factories
// Plain user factory: chooses cutoffs itself, knows all algebras but WITT and QUAT
template <typename... I> struct Factory {
  long bdim;
  int missing; // algebra it refuses
  std::unique_ptr<lc::elementary_space<I...>> operator()(lc::generator<I...> const& gen) const {
    point(K_ESC);
    Letter l;
    {
      Pause p;
      l = read_gen(gen);
    }
    if(l.alg == missing || l.alg == WITT || l.alg == QUAT) throw lc::es_construction_failure<I...>(gen);
    SD s = space_of(l, bdim);
    auto r = make_es<I...>(s);
    point(K_ESC);
    return r;
  }
  static SD space_of(Letter const& l, long bdim) {
    switch(l.alg) {
    case lc::fermion: return SD{l.alg, l.idx, 2};
    case lc::boson: return SD{l.alg, l.idx, bdim + l.idx};
    case lc::spin: return SD{l.alg, l.idx, l.mult};
    default: return SD{l.alg, l.idx, l.alg == CLIFF ? 2 : 3};
    }
  }
};

// Runs an operation that must end with an error of the library's own
inline bool perform_err(Op const& op, Fn f, Fn after_fail, std::exception_ptr& err) {
  return perform(
      op,
      [&] {
        err = nullptr;
        try {
          f();
        } catch(Injected const&) {
          throw;
        } catch(std::bad_alloc const&) {
          throw;
        } catch(std::exception const&) {
          err = std::current_exception();
        }
      },
      after_fail);
}

} // namespace sim

//---------------------------------------------------------------- extended es_constructor
namespace libcommute {
#define SIM_ESC(ALG, DIM)                                                                            \
  template <> class es_constructor<ALG> {                                                            \
  public:                                                                                            \
    es_constructor() = default;                                                                      \
    template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& gen) const { \
      sim::point(sim::K_ESC);                                                                        \
      return std::unique_ptr<elementary_space<I...>>(new sim::UES<I...>(ALG, DIM, gen.indices()));   \
    }                                                                                                \
  };
SIM_ESC(1, 2)
SIM_ESC(3, 3)
SIM_ESC(4, 3)
#undef SIM_ESC
} // namespace libcommute
#endif
