// User-supplied types whose every operation is a fault point: scalars, index
// types and algebra generators. All of them own heap memory, are counted, and
// notice being used after they were moved from.
#ifndef SIM_USERLIB_HPP
#define SIM_USERLIB_HPP

#include "core.hpp"

#include <libcommute/libcommute.hpp>

#include <complex>
#include <map>
#include <memory>
#include <ostream>
#include <tuple>

namespace lc = libcommute;

namespace sim {

void between_ops();
typedef std::complex<double> cplx;

//---------------------------------------------------------------- scalars
// Tag 0: complex, with compound assignments; 1: complex, binary operators only;
// 2: real, mixes with tag 0.
template <int Tag> struct Scal {
  cplx* p;

  static cplx* make(cplx v) {
    point(K_SCALAR);
    cplx* q = new cplx(v);
    ++g.live_user;
    return q;
  }
  cplx const& get() const {
    if(!p) fail("moved-from-read", "a scalar is read after it was moved from");
    return *p;
  }
  Scal() : p(make(0)) {}
  Scal(int x) : p(make(double(x))) {}
  Scal(double x) : p(make(x)) {}
  explicit Scal(cplx x) : p(make(x)) {}
  Scal(Scal const& o) : p(make(o.get())) {}
  Scal(Scal&& o) noexcept : p(o.p) { o.p = nullptr; }
  template <int T2, typename = typename std::enable_if<T2 == 2 && Tag == 0>::type>
  explicit Scal(Scal<T2> const& o) : p(make(o.get())) {}
  Scal& operator=(Scal const& o) {
    cplx* q = make(o.get());
    drop();
    p = q;
    return *this;
  }
  Scal& operator=(Scal&& o) noexcept {
    if(this != &o) {
      drop();
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Scal() { drop(); }
  void drop() {
    if(p) {
      *p = cplx(1e300, -1e300);
      delete p;
      --g.live_user;
    }
    p = nullptr;
  }
  Scal operator-() const { return Scal(-get()); }
  friend bool operator==(Scal const& a, Scal const& b) {
    point(K_SCALAR);
    return a.get() == b.get();
  }
  friend bool operator!=(Scal const& a, Scal const& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& os, Scal const& a) {
    point(K_SCALAR);
    cplx v = a.get();
    if(Tag == 2) return os << v.real();
    return os << '(' << v.real() << ',' << v.imag() << ')';
  }
};

#define SIM_BIN(OP)                                                                                    \
  template <int T> Scal<T> operator OP(Scal<T> const& a, Scal<T> const& b) {                           \
    return Scal<T>(a.get() OP b.get());                                                                \
  }                                                                                                    \
  inline Scal<0> operator OP(Scal<0> const& a, Scal<2> const& b) { return Scal<0>(a.get() OP b.get()); } \
  inline Scal<0> operator OP(Scal<2> const& a, Scal<0> const& b) { return Scal<0>(a.get() OP b.get()); }
SIM_BIN(+)
SIM_BIN(-)
SIM_BIN(*)
#undef SIM_BIN
#define SIM_CMP(OP)                                                                \
  inline Scal<0>& operator OP(Scal<0>& a, Scal<0> const& b) {                      \
    point(K_SCALAR);                                                               \
    cplx y = b.get();                                                              \
    if(!a.p) fail("moved-from-read", "a scalar is updated after it was moved from"); \
    *a.p OP y;                                                                     \
    return a;                                                                      \
  }                                                                                \
  inline Scal<0>& operator OP(Scal<0>& a, Scal<2> const& b) {                      \
    point(K_SCALAR);                                                               \
    cplx y = b.get();                                                              \
    if(!a.p) fail("moved-from-read", "a scalar is updated after it was moved from"); \
    *a.p OP y;                                                                     \
    return a;                                                                      \
  }
SIM_CMP(+=)
SIM_CMP(-=)
SIM_CMP(*=)
#undef SIM_CMP
} // namespace sim

namespace libcommute {
template <int T> struct scalar_traits<sim::Scal<T>> {
  static bool is_zero(sim::Scal<T> const& x) { return x.get() == 0.0; }
  static sim::Scal<T> make_const(double x) { return sim::Scal<T>(x); }
  static sim::Scal<T> make_const(var_number const& vn) { return sim::Scal<T>(double(vn)); }
  static sim::Scal<T> conj(sim::Scal<T> const& x) { return sim::Scal<T>(std::conj(x.get())); }
};
} // namespace libcommute

namespace sim {

inline cplx val(double x) { return x; }
inline cplx val(cplx x) { return x; }
template <int T> cplx val(Scal<T> const& x) { return x.get(); }
template <class S> struct from_c;
template <> struct from_c<double> {
  static double make(cplx x) { return x.real(); }
  enum { real = 1 };
};
template <> struct from_c<cplx> {
  static cplx make(cplx x) { return x; }
  enum { real = 0 };
};
template <int T> struct from_c<Scal<T>> {
  static Scal<T> make(cplx x) { return Scal<T>(T == 2 ? cplx(x.real()) : x); }
  enum { real = T == 2 };
};

//---------------------------------------------------------------- index type
struct UIdx {
  int* p;
  static int* make(int v) {
    point(K_IDX);
    int* q = new int(v);
    ++g.live_user;
    return q;
  }
  int get() const {
    if(!p) fail("moved-from-read", "an index is read after it was moved from");
    return *p;
  }
  explicit UIdx(int v) : p(make(v)) {}
  UIdx(UIdx const& o) : p(make(o.get())) {}
  UIdx(UIdx&& o) noexcept : p(o.p) { o.p = nullptr; }
  UIdx& operator=(UIdx const& o) {
    int* q = make(o.get());
    drop();
    p = q;
    return *this;
  }
  UIdx& operator=(UIdx&& o) noexcept {
    if(this != &o) {
      drop();
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~UIdx() { drop(); }
  void drop() {
    if(p) {
      *p = -777777;
      delete p;
      --g.live_user;
    }
    p = nullptr;
  }
  friend bool operator==(UIdx const& a, UIdx const& b) {
    point(K_IDX);
    return a.get() == b.get();
  }
  friend bool operator!=(UIdx const& a, UIdx const& b) { return !(a == b); }
  friend bool operator<(UIdx const& a, UIdx const& b) {
    point(K_IDX);
    return a.get() < b.get();
  }
  friend bool operator>(UIdx const& a, UIdx const& b) { return b < a; }
  friend bool operator<=(UIdx const& a, UIdx const& b) { return !(b < a); }
  friend bool operator>=(UIdx const& a, UIdx const& b) { return !(a < b); }
  friend std::string to_string(UIdx const& a) {
    point(K_IDX);
    return "u" + std::to_string(a.get());
  }
};

//---------------------------------------------------------------- letters
enum UserAlg { WITT = 0, CLIFF = 1, QUAT = 2, TRI = 3, CYC = 4, PROJ = 5 };
struct Letter {
  int alg;  // algebra ID
  int idx;  // number of the index sequence
  int a;    // dagger / spin component / parameter
  int mult; // spin multiplicity
};
inline bool operator==(Letter const& x, Letter const& y) {
  return x.alg == y.alg && x.idx == y.idx && x.a == y.a && x.mult == y.mult;
}
inline bool operator!=(Letter const& x, Letter const& y) { return !(x == y); }
typedef std::vector<Letter> Word;

// Documented canonical order of generators
inline int cmp(Letter const& x, Letter const& y) {
  auto c = [](int a, int b) { return a < b ? -1 : a > b ? 1 : 0; };
  if(x.alg != y.alg) return c(x.alg, y.alg);
  if(x.alg == lc::fermion || x.alg == lc::boson) {
    if(x.a != y.a) return x.a ? -1 : 1;
    return x.a ? c(x.idx, y.idx) : c(y.idx, x.idx);
  }
  if(x.alg == lc::spin) {
    if(x.mult != y.mult) return c(x.mult, y.mult);
    if(x.idx != y.idx) return c(x.idx, y.idx);
    return c(x.a, y.a);
  }
  if(x.idx != y.idx) return c(x.idx, y.idx);
  return c(x.a, y.a);
}
inline int cmp(Word const& x, Word const& y) {
  if(x.size() != y.size()) return x.size() < y.size() ? -1 : 1;
  for(std::size_t i = 0; i < x.size(); ++i)
    if(int c = cmp(x[i], y[i])) return c;
  return 0;
}
struct WordLess {
  bool operator()(Word const& a, Word const& b) const { return cmp(a, b) < 0; }
};
inline Letter conj(Letter l) {
  if(l.alg == lc::fermion || l.alg == lc::boson)
    l.a = !l.a;
  else if(l.alg == lc::spin)
    l.a = l.a == 2 ? 2 : 1 - l.a;
  else if(l.alg == WITT)
    l.a = -l.a;
  return l;
}
inline Word conj(Word const& w, double& sign) {
  Word r;
  for(std::size_t i = w.size(); i-- > 0;) {
    r.push_back(conj(w[i]));
    if(w[i].alg == QUAT) sign = -sign;
  }
  return r;
}
std::string text(Letter const& l);
std::string text(Word const& w);

//---------------------------------------------------------------- user generators
struct UserTag {
  virtual ~UserTag() {}
  virtual int param() const = 0;
};

// One class for all user-defined algebras:
//   WITT  L_m L_n - L_n L_m = (m - n) L_{m+n}
//   CLIFF g_i g_j + g_j g_i = 2 delta_ij
//   QUAT  i, j, k with i j = k = -j i, i^2 = -1
//   TRI   T^3 = T
//   CYC   U^3 = 1
//   PROJ  P^2 = P, conjugation P -> 1 - P
template <typename... I> struct UGen : lc::generator<I...>, UserTag {
  typedef lc::generator<I...> base;
  typedef typename base::linear_function_t lin_t;
  int alg;
  int n;
  int* guard; // owned memory
  UGen(int alg, int n, std::tuple<I...> const& ind) : base(ind), alg(alg), n(n), guard(new int(n)) { ++g.live_user; }
  ~UGen() override {
    delete guard;
    --g.live_user;
  }
  UGen(UGen const&) = delete;
  int algebra_id() const override { return alg; }
  int param() const override { return *guard; }
  std::shared_ptr<const base> mk(int m) const { return std::make_shared<UGen>(alg, m, base::indices()); }
  lc::var_number swap_with(base const& g2_, lin_t& f) const override {
    point(K_GEN);
    auto const& g2 = dynamic_cast<UGen const&>(g2_);
    f.set(0);
    if(this->indices() != g2.indices()) return 1;
    switch(alg) {
    case WITT: f.set(0, mk(n + g2.n), n - g2.n); return 1;
    case CLIFF: return -1;
    case QUAT: return -1;
    default: return 1;
    }
  }
  bool simplify_prod(base const& g2_, lin_t& f) const override {
    point(K_GEN);
    auto const& g2 = dynamic_cast<UGen const&>(g2_);
    if(this->indices() != g2.indices()) return false;
    if(alg == CLIFF && n == g2.n) {
      f.set(1);
      return true;
    }
    if(alg == QUAT) {
      if(n == g2.n)
        f.set(-1);
      else
        f.set(0, mk(3 - n - g2.n), g2.n == n + 1 ? 1 : -1);
      return true;
    }
    if(alg == PROJ) {
      f.set(0, this->shared_from_this(), 1);
      return true;
    }
    return false;
  }
  bool reduce_power(int power, lin_t& f) const override {
    point(K_GEN);
    if(alg == TRI && power == 3) {
      f.set(0, this->shared_from_this(), 1);
      return true;
    }
    if(alg == CYC && power == 3) {
      f.set(1);
      return true;
    }
    return false;
  }
  void conj(lin_t& f) const override {
    point(K_GEN);
    if(alg == WITT)
      f.set(0, mk(-n), 1);
    else if(alg == QUAT)
      f.set(0, this->shared_from_this(), -1);
    else if(alg == PROJ)
      f.set(1, this->shared_from_this(), -1);
    else
      base::conj(f);
  }
  std::string to_string() const override {
    point(K_GEN);
    static const char* const names[] = {"L", "G", "Q", "T", "U", "P"};
    return names[alg] + std::to_string(n) + "(" + lc::tuple_to_string(this->indices()) + ")";
  }

protected:
  bool equal(base const& g2_) const override {
    point(K_GEN);
    auto const& g2 = dynamic_cast<UGen const&>(g2_);
    return base::equal(g2_) && n == g2.n;
  }
  bool less(base const& g2_) const override {
    point(K_GEN);
    auto const& g2 = dynamic_cast<UGen const&>(g2_);
    if(!base::equal(g2_)) return base::less(g2_);
    return n < g2.n;
  }
  bool greater(base const& g2_) const override {
    point(K_GEN);
    auto const& g2 = dynamic_cast<UGen const&>(g2_);
    if(!base::equal(g2_)) return base::greater(g2_);
    return n > g2.n;
  }
};

//---------------------------------------------------------------- index configurations
using lc::dynamic_indices::dyn_indices;
template <typename... I> struct Indices;
enum { N_IDX = 6 };
template <> struct Indices<UIdx> {
  typedef std::tuple<UIdx> tuple;
  static tuple make(int id) { return tuple(UIdx(id)); }
};
template <> struct Indices<std::string, int> {
  typedef std::tuple<std::string, int> tuple;
  static tuple make(int id) {
    switch(id) {
    case 0: return tuple("a", 0);
    case 1: return tuple("a", 3);
    case 2: return tuple("a much longer index string that needs memory of its own", -1);
    case 3: return tuple("a much longer index string that needs memory of its own", 1);
    case 4: return tuple("b", -7);
    default: return tuple("b", 1000 + id);
    }
  }
};
template <> struct Indices<dyn_indices> {
  typedef std::tuple<dyn_indices> tuple;
  static tuple make(int id) {
    switch(id) {
    case 0: return tuple(dyn_indices());
    case 1: return tuple(dyn_indices(2));
    case 2: return tuple(dyn_indices(std::string("x")));
    case 3: return tuple(dyn_indices(1, std::string("dn, with a rather long name to allocate memory")));
    case 4: return tuple(dyn_indices(std::string("a"), 0));
    default: return tuple(dyn_indices(std::string("a"), id, 7));
    }
  }
};
template <> struct Indices<int> {
  typedef std::tuple<int> tuple;
  static tuple make(int id) { return tuple(id); }
};

template <typename... I> int index_id(std::tuple<I...> const& t) {
  Pause pause;
  static std::vector<std::tuple<I...>> const* known = nullptr;
  if(!known) {
    auto* v = new std::vector<std::tuple<I...>>;
    for(int i = 0; i < 2 * N_IDX; ++i) v->push_back(Indices<I...>::make(i));
    known = v;
  }
  for(int i = 0; i < 2 * N_IDX; ++i)
    if(t == (*known)[std::size_t(i)]) return i;
  return -1;
}
template <> inline int index_id<int>(std::tuple<int> const& t) { return std::get<0>(t); }
template <> inline int index_id<UIdx>(std::tuple<UIdx> const& t) { return std::get<0>(t).get(); }

template <typename... I> Letter read_gen(lc::generator<I...> const& gen) {
  Letter l;
  l.alg = gen.algebra_id();
  l.idx = index_id(gen.indices());
  l.a = 0;
  l.mult = 0;
  if(l.idx < 0) fail("bad-generator", "a generator has indices that were never created");
  if(l.alg == lc::fermion)
    l.a = dynamic_cast<lc::generator_fermion<I...> const&>(gen).dagger();
  else if(l.alg == lc::boson)
    l.a = dynamic_cast<lc::generator_boson<I...> const&>(gen).dagger();
  else if(l.alg == lc::spin) {
    auto const& s = dynamic_cast<lc::generator_spin<I...> const&>(gen);
    l.a = s.component();
    l.mult = s.multiplicity();
  } else
    l.a = dynamic_cast<UserTag const&>(gen).param();
  return l;
}
template <typename... I> Word read_mono(lc::monomial<I...> const& m) {
  Word w;
  for(auto const& x : m) w.push_back(read_gen(x));
  return w;
}
#ifdef SIM_MT
// Generators shared between threads: every thread has references of its own
template <typename... I> struct GenPool {
  typedef std::vector<std::pair<Letter, std::shared_ptr<const lc::generator<I...>>>> type;
  static __thread type* mine;
};
template <typename... I> __thread typename GenPool<I...>::type* GenPool<I...>::mine = nullptr;
#endif
template <typename... I> std::shared_ptr<const lc::generator<I...>> make_gen(Letter const& l) {
#ifdef SIM_MT
  if(auto const* p = GenPool<I...>::mine)
    for(auto const& x : *p)
      if(x.first == l) return x.second;
#endif
  auto t = Indices<I...>::make(l.idx);
  switch(l.alg) {
  case lc::fermion: return std::make_shared<lc::generator_fermion<I...>>(bool(l.a), std::move(t));
  case lc::boson: return std::make_shared<lc::generator_boson<I...>>(bool(l.a), std::move(t));
  case lc::spin:
    return std::make_shared<lc::generator_spin<I...>>((l.mult - 1) / 2.0, lc::spin_component(l.a), std::move(t));
  default: return std::make_shared<UGen<I...>>(l.alg, l.a, t);
  }
}
template <typename... I> lc::monomial<I...> make_mono(Word const& w) {
  std::vector<std::shared_ptr<const lc::generator<I...>>> v;
  for(auto const& l : w) v.push_back(make_gen<I...>(l));
  return lc::monomial<I...>(std::move(v));
}

// Stream buffer that never fails
struct QuietSink : std::streambuf {
  std::string s;
  int_type overflow(int_type c) override {
    Pause p;
    if(c != traits_type::eof()) s += char(c);
    return c == traits_type::eof() ? 0 : c;
  }
  std::streamsize xsputn(char const* q, std::streamsize n) override {
    Pause p;
    s.append(q, std::size_t(n));
    return n;
  }
};

//---------------------------------------------------------------- polynomials
typedef std::pair<Word, cplx> Term;
typedef std::vector<Term> Poly; // as stored by the library
typedef std::map<Word, cplx, WordLess> Dict;

template <class S, typename... I> Poly read_expr(lc::expression<S, I...> const& e) {
  Poly p;
  for(auto const& m : e.get_monomials()) p.emplace_back(read_mono(m.first), val(m.second));
  return p;
}
std::string text(Poly const& p);
bool same(Poly const& a, Poly const& b); // exact
// Is `p` a well-formed canonical expression? Fails with `where` otherwise.
void check_canonical(Poly const& p, const char* where);
Dict dict(Poly const& p);
Poly poly(Dict const& d); // drops zeros
void log_poly(Poly const& p);

// Representation in which every generator maps basis states to multiples of basis states
struct RepState {
  signed char f[N_IDX];
  long b[N_IDX];
  signed char s[N_IDX][4]; // multiplicities 2..5
  long w[2];
  signed char cl[2], q[2], t[2], u[2], p[2];
  bool operator<(RepState const& o) const;
};
bool apply(Letter const& l, RepState& s, cplx& c);   // false: annihilated
// Do the two polynomials act identically? `seed` chooses test states.
void check_equal_action(Poly const& got, Poly const& model, u64 seed, const char* where);
double max_coeff(Poly const& p);

} // namespace sim
#endif
