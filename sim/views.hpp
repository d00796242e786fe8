// Type-erased state vectors and views, with their models.
#ifndef SIM_VIEWS_HPP
#define SIM_VIEWS_HPP

#include "ops.hpp"

namespace sim {

using lc::get_element;
using lc::set_zeros;
using lc::update_add_element;
using lc::zeros_like;
using lc::foreach;

// Reference to a callable f(u64, S const&)
template <class S> class VisitRef {
  void* o;
  void (*c)(void*, u64, S const&);

public:
  template <class F>
  VisitRef(F&& f)
    : o(const_cast<void*>(static_cast<void const*>(&f))),
      c([](void* p, u64 n, S const& x) { (*static_cast<typename std::remove_reference<F>::type*>(p))(n, x); }) {}
  void operator()(u64 n, S const& x) const { c(o, n, x); }
};

template <class S> using LOp = lc::loperator<S, lc::fermion, lc::boson, lc::spin, 1, 3, 4>;

template <class S> struct AnyVec {
  virtual ~AnyVec() {}
  virtual S get(u64 n) const = 0;
  virtual void add(u64 n, S const& x) = 0;
  virtual void add_tmp(u64 n, S&& x) = 0;
  virtual void add_own(u64 n, u64 k) = 0; // add the k-th amplitude to the n-th one
  virtual void zero() = 0;
  virtual void each(VisitRef<S> f) const = 0;
  virtual void from(LOp<S> const& op, UVec<S> const& src) = 0;
  virtual void to(LOp<S> const& op, UVec<S>& dst) const = 0;
  virtual void store(u64 n, S const& x) {}      // through operator[]
  virtual void prune() {}
  virtual void prune_if(bool (*p)(cplx)) {}
  virtual long stored() const { return -1; }
  virtual std::unique_ptr<AnyVec> clone() const = 0;  // copies of by-reference views share the vector
  // assignments between objects of the same type; false: not assignable
  virtual bool assign(AnyVec const& o) = 0;
  virtual bool move_assign(AnyVec& o) = 0;
  virtual std::unique_ptr<AnyVec> moved() = 0;        // this object is not used afterwards
  virtual std::unique_ptr<AnyVec> like() const { return nullptr; } // zeros_like()
  virtual bool view() const = 0;
  virtual bool writable() const = 0;
  virtual u64 slot(u64 n) const = 0;           // where amplitude n is (views)
  virtual cplx raw(u64 k) const = 0;           // content of slot k (views)
};

// Does the view adapt a constant vector?
template <class V> struct is_const_view : std::false_type {};
template <class V, bool R> struct is_const_view<lc::compressed_state_view<V const, R>> : std::true_type {};
template <class V, bool R> struct is_const_view<lc::mapped_basis_view<V const, R>> : std::true_type {};
template <class V, bool R, class A> struct is_const_view<lc::n_fermion_sector_view<V const, R, A>> : std::true_type {};
template <class V, bool R, class A> struct is_const_view<lc::n_fermion_multisector_view<V const, R, A>> : std::true_type {};

// Is the type a view?
template <class V> struct is_view : std::false_type {};
template <class V, bool R> struct is_view<lc::compressed_state_view<V, R>> : std::true_type {};
template <class V, bool R> struct is_view<lc::mapped_basis_view<V, R>> : std::true_type {};
template <class V, bool R, class A> struct is_view<lc::n_fermion_sector_view<V, R, A>> : std::true_type {};
template <class V, bool R, class A> struct is_view<lc::n_fermion_multisector_view<V, R, A>> : std::true_type {};

template <class V> u64 slot_of(V const& v, u64 n) { return v.map_index(n); }
template <class V, bool R> u64 slot_of(lc::mapped_basis_view<V, R> const& v, u64 n) { return v.map.at(n); }

template <class S> struct is_sparse_vec : std::false_type {};
template <class S> struct is_sparse_vec<lc::sparse_state_vector<S>> : std::true_type {};

template <class S, class V> struct VecImpl : AnyVec<S> {
  typedef std::integral_constant<int, is_view<V>::value> View;
  typedef std::integral_constant<int, !is_const_view<V>::value> Mut;
  typedef std::integral_constant<int, is_sparse_vec<V>::value> Sparse;
  typedef std::integral_constant<int, 0> No;
  typedef std::integral_constant<int, 1> Yes;
  std::shared_ptr<void> keep; // what the view refers to
  V v;
  VecImpl(std::shared_ptr<void> k, V&& x) : keep(std::move(k)), v(std::move(x)) {}
  VecImpl(std::shared_ptr<void> k, V const& x) : keep(std::move(k)), v(x) {}
  S get(u64 n) const override { return get_element(v, n); }

  template <class X> void add_(u64 n, X&& x, Yes) { update_add_element(v, n, std::forward<X>(x)); }
  template <class X> void add_(u64, X&&, No) {}
  void add(u64 n, S const& x) override { add_(n, x, Mut()); }
  void add_tmp(u64 n, S&& x) override { add_(n, std::move(x), Mut()); }
  void add_own(u64 n, u64 k) override { own_(n, k, Sparse()); }
  void own_(u64 n, u64 k, No) { add_(n, get_element(v, k), Mut()); }
  void own_(u64 n, u64 k, Yes) { // a reference to a stored amplitude
    S const* p = nullptr;
    foreach(v, [&](u64 q, S const& x) {
      if(q == k) p = &x;
    });
    if(p)
      update_add_element(v, n, *p);
    else
      update_add_element(v, n, get_element(v, k));
  }
  void zero_(Yes) { set_zeros(v); }
  void zero_(No) {}
  void zero() override { zero_(Mut()); }
  void each(VisitRef<S> f) const override {
    foreach(v, [&](u64 n, S const& x) { f(n, x); });
  }
  void from_(LOp<S> const& op, UVec<S> const& src, Yes) { op(src, v); }
  void from_(LOp<S> const&, UVec<S> const&, No) {}
  void from(LOp<S> const& op, UVec<S> const& src) override { from_(op, src, Mut()); }
  void to(LOp<S> const& op, UVec<S>& dst) const override { op(v, dst); }

  void store_(u64 n, S const& x, Yes) { v[n] = x; }
  void store_(u64, S const&, No) {}
  void store(u64 n, S const& x) override { store_(n, x, Sparse()); }
  void prune_(Yes) { v.prune(); }
  void prune_(No) {}
  void prune() override { prune_(Sparse()); }
  void prune_if_(bool (*p)(cplx), Yes) {
    v.prune([p](S const& x) {
      point(K_CB);
      return p(val(x));
    });
  }
  void prune_if_(bool (*)(cplx), No) {}
  void prune_if(bool (*p)(cplx)) override { prune_if_(p, Sparse()); }
  long stored_(Yes) const { return long(v.n_nonzeros()); }
  long stored_(No) const { return -1; }
  long stored() const override { return stored_(Sparse()); }

  std::unique_ptr<AnyVec<S>> clone() const override { return std::unique_ptr<AnyVec<S>>(new VecImpl(keep, v)); }
  typedef std::integral_constant<int, std::is_copy_assignable<V>::value> CanAssign;
  bool assign_(VecImpl const& o, Yes) {
    v = o.v;
    return true;
  }
  bool assign_(VecImpl const&, No) { return false; }
  bool assign(AnyVec<S> const& o) override { return assign_(dynamic_cast<VecImpl const&>(o), CanAssign()); }
  bool massign_(VecImpl& o, Yes) {
    v = std::move(o.v);
    return true;
  }
  bool massign_(VecImpl&, No) { return false; }
  bool move_assign(AnyVec<S>& o) override { return massign_(dynamic_cast<VecImpl&>(o), CanAssign()); }
  std::unique_ptr<AnyVec<S>> moved() override { return std::unique_ptr<AnyVec<S>>(new VecImpl(keep, std::move(v))); }
  std::unique_ptr<AnyVec<S>> like_(Yes) const { return nullptr; }
  std::unique_ptr<AnyVec<S>> like_(No) const {
    V z = zeros_like(v);
    return std::unique_ptr<AnyVec<S>>(new VecImpl(keep, std::move(z)));
  }
  std::unique_ptr<AnyVec<S>> like() const override { return like_(View()); }
  bool view() const override { return View::value; }
  bool writable() const override { return Mut::value; }
  u64 slot_(u64 n, Yes) const { return slot_of(v, n); }
  u64 slot_(u64 n, No) const { return n; }
  u64 slot(u64 n) const override { return slot_(n, View()); }
  cplx raw_(u64 k, Yes) const { return val(S(get_element(v.state_vector, k))); }
  cplx raw_(u64 k, No) const { return val(S(get_element(v, k))); }
  cplx raw(u64 k) const override { return raw_(k, View()); }
};

//---------------------------------------------------------------- what a vector should contain
struct VModel {
  std::vector<u64> keys;   // valid indices, in the promised order of traversals
  bool ordered = true;
  bool each = true;        // all keys are listed
  std::map<u64, cplx> amp; // non-zero amplitudes
  std::set<u64> loose;     // zeros stored through operator[]
  std::string name;
  cplx at(u64 n) const {
    auto it = amp.find(n);
    return it == amp.end() ? 0.0 : it->second;
  }
  void add(u64 n, cplx x) {
    cplx y = at(n) + x;
    if(x == 0.0 && loose.count(n)) { // stays or goes
      return;
    }
    loose.erase(n);
    if(y == 0.0)
      amp.erase(n);
    else
      amp[n] = y;
  }
};

// Reads everything there is and compares with the model (no faults)
template <class S> void check_vec(AnyVec<S> const& v, VModel const& m, const char* what, const char* when) {
  quiet([&] {
    Amp seen;
    std::vector<u64> order;
    for(u64 n : m.keys) {
      cplx x = val(v.get(n));
      if(x != m.at(n))
        fail("wrong-amplitude", "%s %s: amplitude %llu of %s is (%g,%g) instead of (%g,%g)", what, when, (unsigned long long)n,
             m.name.c_str(), x.real(), x.imag(), m.at(n).real(), m.at(n).imag());
      if(v.view()) {
        u64 s = v.slot(n);
        if(val(S(v.get(n))) != v.raw(s)) fail("wrong-amplitude", "%s %s: %s reads %llu from elsewhere", what, when, m.name.c_str(), (unsigned long long)n);
      }
    }
    if(!m.each) return;
    v.each([&](u64 n, S const& x) {
      if(val(x) == 0.0) {
        if(!m.loose.count(n)) fail("zero-reported", "%s %s: a zero amplitude %llu of %s is reported", what, when, (unsigned long long)n, m.name.c_str());
        return;
      }
      if(!seen.emplace(n, val(x)).second)
        fail("wrong-traversal", "%s %s: amplitude %llu of %s is visited twice", what, when, (unsigned long long)n, m.name.c_str());
      order.push_back(n);
    });
    if(seen != m.amp)
      fail("wrong-traversal", "%s %s: %s is %s instead of %s", what, when, m.name.c_str(), text(seen).c_str(), text(Amp(m.amp)).c_str());
    if(m.ordered) {
      std::size_t k = 0;
      for(u64 n : m.keys)
        if(m.amp.count(n)) {
          if(k >= order.size() || order[k] != n) fail("wrong-traversal", "%s %s: %s is traversed in a wrong order", what, when, m.name.c_str());
          ++k;
        }
    }
    long st = v.stored();
    if(st >= 0 && (st < long(m.amp.size()) || st > long(m.amp.size() + m.loose.size())))
      fail("zero-stored", "%s %s: %ld amplitudes are stored in %s, which has %zu non-zero ones", what, when, st, m.name.c_str(), m.amp.size());
    log_amp(m.amp);
  });
}

//---------------------------------------------------------------- construction
enum Shape { VEC, COMP, MAPPED, NFS, NFMS };
enum Storage { ST_VECTOR, ST_SPARSE, ST_USER, ST_EIGEN };
struct VKind {
  const char* name;
  int shape, storage;
  bool ref;    // by reference
  bool konst;  // a constant twin can be made
  int max_m;   // limit on the number of fermionic modes (0: none)
};

// A Hilbert space and everything vectors over it are built from
template <class S, typename... I> struct VSpace {
  typedef lc::hilbert_space<I...> HS;
  typedef lc::sector_descriptor<HS> SDesc;
  typedef std::unique_ptr<AnyVec<S>> Ptr;
  typedef std::pair<u64, int> MaskN;

  MHS m;
  HS hs;
  bool big = false; // no dense vectors, no complete lists
  u64 fmask = 0;    // fermionic modes
  int M = 0;

  VSpace(Rng& r, int mode, int kinds);

  // kinds of vectors
  static int n_kinds();
  static VKind const& kind(int k);

  // What is needed to build one vector
  struct Proto {
    int k = 0;
    u64 size = 0;                     // of the underlying vector
    std::shared_ptr<void> store;      // the adapted vector (by reference)
    int n = 0;                        // N-fermion sector
    std::vector<SDesc> sectors;
    std::vector<MaskN> masks;
    std::shared_ptr<lc::basis_mapper> mapper;
    std::shared_ptr<VModel> model;
    u64 exact = 0;                    // number of states in the sectors (0: unknown)
    bool full = false;                // model->keys is complete
  };
  bool possible(int k) const;
  Proto prepare(Rng& r, int k) const;     // no faults
  Proto fresh(Proto const& p) const;      // same, but with storage of its own
  Ptr build(Proto const& p, bool constant = false) const; // library calls
  void check_slots(Proto const& p, AnyVec<S> const& v) const;

  // model of sectors
  std::vector<u64> sector_states(std::vector<MaskN> const& masks) const; // ascending
  u64 extreme(std::vector<MaskN> const& masks, unsigned ends) const;
  u64 exact_count(std::vector<MaskN> const& masks) const;
  double sector_count(std::vector<MaskN> const& masks) const;
  u64 sample(Rng& r, std::vector<MaskN> const& masks) const;
  void random_sectors(Rng& r, std::vector<SDesc>& s, std::vector<MaskN>& masks) const;

private:
  template <class V> Ptr make(Proto const& p, V&& v) const {
    typedef typename std::decay<V>::type D;
    return Ptr(new VecImpl<S, D>(p.store, std::forward<V>(v)));
  }
  void rec(int b, u64 st, std::vector<MaskN> const& masks, std::vector<int>& left, std::vector<u64>& r) const;
};

} // namespace sim
#endif
