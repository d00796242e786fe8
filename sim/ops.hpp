// Operators: model of their action, user-defined monomial actions, user state
// vectors and parameter-dependent coefficients.
#ifndef SIM_OPS_HPP
#define SIM_OPS_HPP

#include "spaces.hpp"

#include <cmath>

namespace sim {

typedef std::map<u64, cplx> Amp; // amplitudes (no zeros)

// One generator acting on a basis state; false: the result is zero
bool act(Letter const& l, MHS const& hs, u64& st, cplx& c);
// Space a generator acts on (index in hs.es, -1: none)
int space_for(Letter const& l, MHS const& hs);
Amp act(Poly const& p, MHS const& hs, Amp const& in);
Amp act(Poly const& p, MHS const& hs, u64 st);
void prune(Amp& a, double scale);
// Do terms cancel each other in a matrix element in a way that rounding may spoil?
bool fragile(Poly const& p, MHS const& hs, u64 st);
// Are the amplitudes equal up to rounding?
bool close(Amp const& a, Amp const& b);
std::string text(Amp const& a);
void log_amp(Amp const& a);
// A random generator acting on a space of hs (user algebras included)
Letter letter_on(Rng& r, MHS const& hs);
SD random_space(Rng& r, int n_idx, int kinds, long max_dim);

//---------------------------------------------------------------- user state vector
template <class S> struct UVec {
  u64 n;
  std::map<u64, S> d;
  explicit UVec(u64 n) : n(n) {}
};
template <class S> auto get_element(UVec<S> const& v, u64 n) -> S {
  point(K_VEC);
  auto it = v.d.find(n);
  return it == v.d.end() ? lc::scalar_traits<S>::make_const(0) : it->second;
}
// Called at every update, so that something else may happen during an operator application
struct UHook {
  void (*f)(void*, u64) = nullptr;
  void* arg = nullptr;
};
extern SIM_TLS UHook uhook;
template <class S, class T> void update_add_element(UVec<S>& v, u64 n, T const& x) {
  point(K_VEC);
  if(uhook.f) {
    UHook h = uhook;
    uhook.f = nullptr;
    struct Back {
      UHook& h;
      ~Back() { uhook = h; }
    } back{h};
    h.f(h.arg, n);
  }
  if(n >= v.n) fail("bad-index", "update of element %ld of a vector of size %ld", long(n), long(v.n));
  auto it = v.d.find(n);
  if(it == v.d.end())
    v.d.emplace(n, S(x));
  else
    lc::add_assign(it->second, x);
}
template <class S> void set_zeros(UVec<S>& v) {
  point(K_VEC);
  v.d.clear();
}
template <class S> UVec<S> zeros_like(UVec<S> const& v) {
  point(K_VEC);
  return UVec<S>(v.n);
}
template <class S, class F> void foreach(UVec<S> const& v, F&& f) {
  for(auto const& p : v.d) {
    point(K_VEC);
    if(!lc::scalar_traits<S>::is_zero(p.second)) f(p.first, p.second);
  }
}

//---------------------------------------------------------------- parameter-dependent coefficient
// c[0] + c[1] x + c[2] x^2
template <class S> struct PCoef {
  typedef cplx Arr[3];
  cplx* p;
  static cplx* make(cplx a, cplx b, cplx c) {
    point(K_SCALAR);
    cplx* q = new cplx[3];
    q[0] = a;
    q[1] = b;
    q[2] = c;
    ++g.live_user;
    return q;
  }
  cplx const* get() const {
    if(!p) fail("moved-from-read", "a coefficient is read after it was moved from");
    return p;
  }
  PCoef() : p(make(0, 0, 0)) {}
  PCoef(double x) : p(make(x, 0, 0)) {}
  PCoef(cplx a, cplx b, cplx c) : p(make(a, b, c)) {}
  PCoef(PCoef const& o) : p(make(o.get()[0], o.p[1], o.p[2])) {}
  PCoef(PCoef&& o) noexcept : p(o.p) { o.p = nullptr; }
  PCoef& operator=(PCoef const& o) {
    cplx* q = make(o.get()[0], o.p[1], o.p[2]);
    drop();
    p = q;
    return *this;
  }
  PCoef& operator=(PCoef&& o) noexcept {
    if(this != &o) {
      drop();
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~PCoef() { drop(); }
  void drop() {
    if(p) {
      delete[] p;
      --g.live_user;
    }
    p = nullptr;
  }
  friend PCoef operator+(PCoef const& a, PCoef const& b) {
    return PCoef(a.get()[0] + b.get()[0], a.p[1] + b.p[1], a.p[2] + b.p[2]);
  }
  friend PCoef operator-(PCoef const& a, PCoef const& b) {
    return PCoef(a.get()[0] - b.get()[0], a.p[1] - b.p[1], a.p[2] - b.p[2]);
  }
  friend PCoef operator*(PCoef const& a, PCoef const& b) {
    return PCoef(a.get()[0] * b.get()[0], a.p[0] * b.p[1] + a.p[1] * b.p[0], a.p[0] * b.p[2] + a.p[1] * b.p[1] + a.p[2] * b.p[0]);
  }
  PCoef operator-() const { return PCoef(-get()[0], -p[1], -p[2]); }
  PCoef& operator+=(PCoef const& o) { return *this = *this + o; }
  PCoef& operator-=(PCoef const& o) { return *this = *this - o; }
  PCoef& operator*=(PCoef const& o) { return *this = *this * o; }
  friend bool operator==(PCoef const& a, PCoef const& b) {
    return a.get()[0] == b.get()[0] && a.p[1] == b.p[1] && a.p[2] == b.p[2];
  }
  friend bool operator!=(PCoef const& a, PCoef const& b) { return !(a == b); }

  cplx at(cplx x) const { return get()[0] + p[1] * x + p[2] * x * x; }
  // Parameters by value: an argument handed over twice is noticed
  S operator()(double x) const {
    point(K_COEF);
    return from_c<S>::make(at(x));
  }
  S operator()(UIdx x, double y) const {
    point(K_COEF);
    return from_c<S>::make(at(double(x.get()) + y));
  }
  S operator()(std::string x) const {
    point(K_COEF);
    return from_c<S>::make(at(double(x.size())));
  }
  S operator()(std::vector<int> x, std::string y) const {
    point(K_COEF);
    double s = double(y.size());
    for(int v : x) s += v;
    return from_c<S>::make(at(s));
  }
  S operator()() const {
    point(K_COEF);
    return from_c<S>::make(at(1.0));
  }
};

} // namespace sim

namespace libcommute {

template <class S> struct element_type<sim::UVec<S>> {
  using type = S;
};
template <class S> struct scalar_traits<sim::PCoef<S>> {
  typedef sim::PCoef<S> P;
  static bool is_zero(P const& x) { return x.get()[0] == 0.0 && x.p[1] == 0.0 && x.p[2] == 0.0; }
  static P make_const(double x) { return P(x); }
  static P make_const(var_number const& vn) { return P(double(vn)); }
  static P conj(P const& x) { return P(std::conj(x.get()[0]), std::conj(x.p[1]), std::conj(x.p[2])); }
};

#define SIM_ACTION(ALG, ACT)                                                                          \
  template <> class monomial_action<ALG> {                                                            \
    struct upd {                                                                                      \
      int shift, nb, a;                                                                               \
    };                                                                                                \
    std::vector<upd> u;                                                                               \
                                                                                                      \
  public:                                                                                             \
    template <typename... I>                                                                          \
    monomial_action(detail::monomial_range_t<I...> const& m_range, hilbert_space<I...> const& hs) {   \
      for(auto it = m_range.first; it != m_range.second; ++it) {                                      \
        auto es = sim::make_es<I...>(sim::SD{ALG, sim::index_id(it->indices()), ALG == 1 ? 2 : 3});   \
        if(it->algebra_id() != ALG || !hs.has(*es)) throw unknown_generator<I...>(*it);               \
        auto r = hs.bit_range(*es);                                                                   \
        u.push_back(upd{r.first, r.second - r.first + 1, dynamic_cast<sim::UserTag const&>(*it).param()}); \
      }                                                                                               \
    }                                                                                                 \
    template <typename S> bool act(sv_index_type& index, S& coeff) const {                            \
      for(std::size_t k = u.size(); k-- > 0;) {                                                       \
        sim::point(sim::K_GEN);                                                                       \
        sv_index_type mask = ((sv_index_type(1) << u[k].nb) - 1) << u[k].shift;                       \
        sv_index_type n = (index & mask) >> u[k].shift, m = n;                                        \
        ACT;                                                                                          \
        index = (index & ~mask) | (m << u[k].shift);                                                  \
      }                                                                                               \
      return true;                                                                                    \
    }                                                                                                 \
  };
SIM_ACTION(1, {
  if(u[k].a == 0)
    m = 1 - n;
  else if(n)
    mul_assign(coeff, scalar_traits<S>::make_const(-1));
})
SIM_ACTION(3, {
  if(n == 1) return false;
  if(n == 2) mul_assign(coeff, scalar_traits<S>::make_const(-1));
})
SIM_ACTION(4, { m = (n + 1) % 3; })
#undef SIM_ACTION

} // namespace libcommute
#endif
