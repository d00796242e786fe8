// Scenario G: state vectors made of Eigen 3 objects (vectors, segments, matrix
// columns, N x 1 submatrices, mapped memory) and views of them. The memory
// around the part in use must never change.
#include "eigen.hpp" // before everything else

#include "ops.hpp"

namespace sim {
namespace {
using lc::foreach;
using lc::get_element;
using lc::set_zeros;
using lc::update_add_element;
using lc::zeros_like;

enum Code { ADD, GET, ZERO, EACH, APPLY, APPLY_RET, APPLY_VIEW, PAR_APPLY, LIKE, MAKE_OP, FILL, NCODES };
const char* const code_name[NCODES] = {"add", "get", "set-zeros", "traverse", "apply", "apply-return", "apply-view", "parametric-apply",
                                       "zeros-like", "make-operator", "fill"};
enum Shape { VEC, SEG, COL, ROWCOL, SUB, ROWSUB, MAP, NSHAPES };
const char* const shape_name[NSHAPES] = {"vector", "segment", "column", "column of a row-major matrix", "submatrix",
                                         "submatrix of a row-major matrix", "map"};
enum ViewKind { NONE, COMP, COMP_VAL, MAPPED, MAPPED_VAL, NFS, NFS_VAL, NVIEWS };
const char* const view_name[NVIEWS] = {"", " under a compressed view", " in a compressed view", " under a mapped view", " in a mapped view",
                                       " under a sector view", " in a sector view"};

template <class S, typename... I> struct Run {
  typedef lc::hilbert_space<I...> HS;
  typedef lc::expression<S, I...> X;
  typedef lc::expression<PCoef<S>, I...> XP;
  typedef lc::loperator<S, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Op_t;
  typedef lc::parametric_loperator<PCoef<S>, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Par_t;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> V;
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> R;
  enum { NSLOTS = 2 * NSHAPES, real = from_c<S>::real };
  struct Slot {
    int shape;
    long off = 0, row = 0, col = 0;
    V v;
    M m;
    R r;
    std::vector<S> raw;
    std::vector<cplx> model; // all of the memory
  };

  Plan const& plan;
  MHS m;
  HS hs;
  u64 n = 0, dim = 0;
  unsigned nf = 0;
  bool fermions = false;
  std::vector<u64> list; // states of a sector
  std::unique_ptr<lc::basis_mapper> mapper;
  Slot slot[NSLOTS];
  Op_t op_;
  Poly mop;
  std::unique_ptr<Par_t> par;
  Poly mpar[3];
  const char* what = "";

  explicit Run(Plan const& pl) : plan(pl) {
    Rng r(pl.seed ^ u64(pl.cfg[0]) * 7919);
    int ns = r.range(1, 4);
    for(int k = 0; k < ns; ++k) {
      SD s = random_space(r, 3, pl.cfg[2], 6);
      if(s.alg < 0 && s.par < 2) s.par = 2;
      MHS t = m;
      t.insert(s);
      if(t.bits() > 7) continue;
      m = t;
    }
    if(m.es.empty()) m.insert(SD{lc::fermion, 0, 2});
    for(auto const& s : m.es) {
      hs.add(*make_es<I...>(s));
      fermions = fermions || s.alg == lc::fermion;
    }
    n = hs.vec_size();
    dim = m.dim();
    if(dim != n) fermions = false; // no sectors of sparse spaces
    if(fermions) {
      unsigned nfm = 0;
      for(auto const& s : m.es) nfm += s.alg == lc::fermion;
      nf = unsigned(r.below(nfm + 1));
      list = lc::n_fermion_sector_basis_states(hs, nf);
      if(list.size() > n) fermions = false;
    }
    std::vector<lc::sv_index_type> st;
    for(u64 k = dim; k-- > 0;) st.push_back(m.state(k));
    mapper.reset(new lc::basis_mapper(st));
    for(int k = 0; k < NSLOTS; ++k) {
      Slot& x = slot[k];
      x.shape = k / 2;
      long N = long(n);
      x.off = r.range(0, 3);
      x.row = r.range(0, 3);
      x.col = r.range(0, 2);
      switch(x.shape) {
      case VEC: x.v = V::Zero(N); break;
      case SEG: x.v = V::Zero(N + x.off + r.range(0, 2)); break;
      case COL: x.m = M::Zero(N, 3); break;
      case ROWCOL: x.r = R::Zero(N, 3); break;
      case SUB: x.m = M::Zero(N + x.row + r.range(0, 2), 3); break;
      case ROWSUB: x.r = R::Zero(N + x.row + r.range(0, 2), 3); break;
      case MAP: x.raw.assign(std::size_t(N + x.off + r.range(0, 2)), S(0)); break;
      }
      x.model.assign(std::size_t(size_of(x)), 0);
      for(std::size_t i = 0; i < x.model.size(); ++i) { // the surroundings are not empty
        x.model[i] = double(int(i % 7) + 1);
        data(x)[i] = from_c<S>::make(x.model[i]);
      }
      for(u64 i = 0; i < n; ++i) put(x, i, 0);
    }
  }

  //---------------------------------------------------------------- memory
  static S* data(Slot& x) {
    switch(x.shape) {
    case VEC: case SEG: return x.v.data();
    case COL: case SUB: return x.m.data();
    case ROWCOL: case ROWSUB: return x.r.data();
    default: return x.raw.data();
    }
  }
  static long size_of(Slot& x) {
    switch(x.shape) {
    case VEC: case SEG: return long(x.v.size());
    case COL: case SUB: return long(x.m.size());
    case ROWCOL: case ROWSUB: return long(x.r.size());
    default: return long(x.raw.size());
    }
  }
  static std::size_t where(Slot const& x, u64 i) {
    switch(x.shape) {
    case VEC: return i;
    case SEG: case MAP: return i + u64(x.off);
    case COL: return u64(x.col * x.m.rows()) + i;
    case ROWCOL: return i * 3 + u64(x.col);
    case SUB: return u64(x.col * x.m.rows() + x.row) + i;
    default: return (i + u64(x.row)) * 3 + u64(x.col);
    }
  }
  void put(Slot& x, u64 i, cplx c) {
    x.model[where(x, i)] = c;
    data(x)[where(x, i)] = from_c<S>::make(c);
  }
  cplx cell(Slot& x, u64 i) { return val(data(x)[where(x, i)]); }
  // f(Eigen expression)
  template <class F> void with(Slot& x, F&& f) {
    switch(x.shape) {
    case VEC: f(x.v); break;
    case SEG: {
      auto e = x.v.segment(x.off, long(n));
      f(e);
      break;
    }
    case COL: {
      auto e = x.m.col(x.col);
      f(e);
      break;
    }
    case ROWCOL: {
      auto e = x.r.col(x.col);
      f(e);
      break;
    }
    case SUB: {
      auto e = x.m.block(x.row, x.col, long(n), 1);
      f(e);
      break;
    }
    case ROWSUB: {
      auto e = x.r.block(x.row, x.col, long(n), 1);
      f(e);
      break;
    }
    default: {
      Eigen::Map<V> e(x.raw.data() + x.off, long(n));
      f(e);
    }
    }
  }
  template <class F> void cwith(Slot& x, F&& f) { // constant
    Slot const& y = x;
    switch(x.shape) {
    case VEC: f(y.v); break;
    case SEG: {
      auto const e = y.v.segment(y.off, long(n));
      f(e);
      break;
    }
    case COL: {
      auto const e = y.m.col(y.col);
      f(e);
      break;
    }
    case ROWCOL: {
      auto const e = y.r.col(y.col);
      f(e);
      break;
    }
    case SUB: {
      auto const e = y.m.block(y.row, y.col, long(n), 1);
      f(e);
      break;
    }
    case ROWSUB: {
      auto const e = y.r.block(y.row, y.col, long(n), 1);
      f(e);
      break;
    }
    default: {
      Eigen::Map<V> const e(x.raw.data() + x.off, long(n));
      f(e);
    }
    }
  }
  // f(view), or f(expression)
  template <class E, class F> void view(E& e, int vk, F&& f, std::true_type /* own storage */) {
    switch(vk) {
    case NONE: f(e); break;
    case COMP: case COMP_VAL: {
      auto w = lc::make_comp_state_view(e, hs);
      f(w);
      break;
    }
    case MAPPED: case MAPPED_VAL: {
      auto w = mapper->make_view(e);
      f(w);
      break;
    }
    default: {
      auto w = lc::make_nfs_view(e, hs, nf);
      f(w);
    }
    }
  }
  template <class E, class F> void view(E& e, int vk, F&& f, std::false_type) {
    switch(vk) {
    case COMP_VAL: {
      auto w = lc::make_comp_state_view(E(e), hs);
      f(w);
      break;
    }
    case MAPPED_VAL: {
      auto w = mapper->make_view(E(e));
      f(w);
      break;
    }
    case NFS_VAL: {
      auto w = lc::make_nfs_view(E(e), hs, nf);
      f(w);
      break;
    }
    default: view(e, vk, f, std::true_type());
    }
  }
  template <class E> using owner = std::is_same<E, V>;
  template <class E, class F> void cview(E const& e, int vk, F&& f) {
    switch(vk) {
    case NONE: f(e); break;
    case COMP: case COMP_VAL: {
      auto const w = lc::make_const_comp_state_view(e, hs);
      f(w);
      break;
    }
    case MAPPED: case MAPPED_VAL: {
      auto const w = mapper->make_const_view(e);
      f(w);
      break;
    }
    default: {
      auto const w = lc::make_const_nfs_view(e, hs, nf);
      f(w);
    }
    }
  }
  // Position of a state, its number of states
  u64 pos(int vk, u64 st) {
    switch(vk) {
    case NONE: return st;
    case COMP: case COMP_VAL: return m.number(st);
    case MAPPED: case MAPPED_VAL: return dim - 1 - m.number(st);
    default: return u64(std::find(list.begin(), list.end(), st) - list.begin());
    }
  }
  u64 count(int vk) { return vk == NONE ? n : vk >= NFS ? list.size() : dim; }
  u64 state(int vk, u64 k) { return vk == NONE ? k : vk >= NFS ? list[k] : m.state(k); }
  int view_kind(int x) {
    int vk = x % NVIEWS;
    if(vk >= NFS && !fermions) vk -= 2;
    return vk;
  }

  //---------------------------------------------------------------- checks
  void check(Slot const* except, const char* when) {
    for(int k = 0; k < NSLOTS; ++k) {
      Slot& x = slot[k];
      if(&x == except) { // anything may be there, but only there
        std::vector<char> in(x.model.size(), 0);
        for(u64 i = 0; i < n; ++i) in[where(x, i)] = 1;
        for(std::size_t i = 0; i < x.model.size(); ++i)
          if(in[i]) x.model[i] = val(data(x)[i]);
      }
      for(std::size_t i = 0; i < x.model.size(); ++i)
        if(val(data(x)[i]) != x.model[i])
          fail("vector-changed", "%s %s: element %zu of the memory of %s %d is %g%+gi instead of %g%+gi", what, when, i,
               shape_name[x.shape], k & 1, val(data(x)[i]).real(), val(data(x)[i]).imag(), x.model[i].real(), x.model[i].imag());
    }
  }
  Amp amplitudes(Slot& x, int vk) {
    Amp a;
    for(u64 k = 0; k < count(vk); ++k) {
      u64 st = state(vk, k);
      cplx c = x.model[where(x, pos(vk, st))];
      if(c != 0.0) a[st] = c;
    }
    return a;
  }
  void result(Slot& x, int vk, Amp const& e) {
    for(u64 i = 0; i < n; ++i) x.model[where(x, i)] = cell(x, i);
    Amp a = amplitudes(x, vk);
    if(!close(a, e)) fail("wrong-result", "%s: the result is %s instead of %s", what, text(a).c_str(), text(e).c_str());
    log_amp(a);
  }

  //---------------------------------------------------------------- operations
  Word word(Rng& r) {
    Word w;
    for(int k = int(r.below(4)); k > 0; --k) w.push_back(letter_on(r, m));
    return w;
  }
  void make(Rng& r) {
    quiet([&] {
      X x;
      XP y;
      for(int i = int(r.below(4)); i >= 0; --i) {
        x += X(from_c<S>::make(cplx(r.range(1, 3), real ? 0 : r.range(-1, 1))), make_mono<I...>(word(r)));
        y += XP(PCoef<S>(r.range(-1, 1), r.range(1, 2), 0), make_mono<I...>(word(r)));
      }
      op_ = Op_t(x, hs);
      mop = read_expr(x);
      par.reset(new Par_t(y, hs));
      for(int k = 0; k < 3; ++k) {
        mpar[k].clear();
        for(auto const& t : y) mpar[k].emplace_back(read_mono(t.monomial), t.coeff.at(k * 0.5));
      }
    });
  }
  cplx number(Rng& r) { return cplx(r.range(-3, 3) * 0.5 + 0.25, real ? 0 : r.range(-2, 2)); }

  void step(Op const& op) {
    what = code_name[op.code];
    Rng r(u64(op.a[3]) * 65599 + u64(op.a[4]));
    Slot& x = slot[op.a[0] % NSLOTS];
    Slot& y = slot[op.a[1] % NSLOTS];
    int vk = view_kind(op.a[2]), var = op.a[5];
    if(g.verbose)
      trace("op %d %s: hs %s, %s %d%s, op = %s", sh->cur_op, what, text(m).c_str(), shape_name[x.shape], op.a[0] & 1, view_name[vk],
            text(mop).c_str());
    auto unchanged = [&] { check(nullptr, "failed"); };
    auto failed = [&] {
      Slot* t = op.code == APPLY || op.code == PAR_APPLY || op.code == APPLY_VIEW || op.code == APPLY_RET ? &y : nullptr;
      check(t, "failed");
    };
    (void)failed;
    if(count(vk) == 0) vk = NONE;
    switch(op.code) {
    case FILL:
      for(u64 i = 0; i < n; ++i) put(x, i, 0);
      for(int k = r.range(1, 9); k > 0; --k) put(x, m.state(r.next() % dim), number(r));
      break;
    case ADD: {
      u64 st = state(vk, r.next() % count(vk));
      cplx c = number(r);
      S v = from_c<S>::make(c);
      if(perform(op, [&] {
           with(x, [&](auto& e) {
             typedef std::remove_reference_t<decltype(e)> E;
             view(e, vk, [&](auto& w) { update_add_element(w, st, v); }, owner<E>());
           });
         }, unchanged))
        x.model[where(x, pos(vk, st))] += c;
      break;
    }
    case GET: {
      u64 st = state(vk, r.next() % count(vk));
      cplx a, b;
      if(!perform(op, [&] {
           with(x, [&](auto& e) {
             typedef std::remove_reference_t<decltype(e)> E;
             view(e, vk, [&](auto& w) { a = val(S(get_element(w, st))); }, owner<E>());
           });
           cwith(x, [&](auto const& e) { cview(e, vk, [&](auto const& w) { b = val(S(get_element(w, st))); }); });
         }, unchanged))
        break;
      cplx c = x.model[where(x, pos(vk, st))];
      if(a != c || b != c)
        fail("wrong-amplitude", "%s: amplitude %llu of %s%s is %g%+gi or %g%+gi instead of %g%+gi", what, (unsigned long long)st,
             shape_name[x.shape], view_name[vk], a.real(), a.imag(), b.real(), b.imag(), c.real(), c.imag());
      break;
    }
    case ZERO:
      if(perform(op, [&] {
           with(x, [&](auto& e) {
             typedef std::remove_reference_t<decltype(e)> E;
             view(e, vk, [&](auto& w) { set_zeros(w); }, owner<E>());
           });
         }, unchanged))
        for(u64 i = 0; i < n; ++i) x.model[where(x, i)] = 0; // a view clears all of the adapted vector
      break;
    case EACH: each(op, x, vk, var); break;
    case APPLY: {
      if(&x == &y) break;
      Amp e = act(mop, m, amplitudes(x, NONE));
      bool src_ok = true;
      for(auto const& a : amplitudes(x, NONE)) src_ok = src_ok && m.is_state(a.first);
      if(!src_ok) break;
      bool cs = var & 1;
      auto f = [&](auto const& a, auto& b) { op_(a, b); };
      if(perform(op, [&] {
           with(y, [&](auto& b) {
             if(cs)
               cwith(x, [&](auto const& a) { f(a, b); });
             else
               with(x, [&](auto& a) { f(a, b); });
           });
         }, failed))
        result(y, NONE, e);
      break;
    }
    case APPLY_RET: {
      if(x.shape != VEC || y.shape != VEC || &x == &y) break;
      bool src_ok = true;
      for(auto const& a : amplitudes(x, NONE)) src_ok = src_ok && m.is_state(a.first);
      if(!src_ok) break;
      Amp e = act(mop, m, amplitudes(x, NONE));
      bool star = var & 1;
      if(perform(op, [&] {
           V t = star ? op_ * x.v : op_(x.v);
           if(t.size() != x.v.size()) fail("wrong-result", "%s: a vector of %ld elements", what, long(t.size()));
           y.v = t;
         }, failed))
        result(y, NONE, e);
      break;
    }
    case APPLY_VIEW: { // between views of the same kind
      Slot& z = slot[(op.a[0] % NSLOTS) ^ 1];
      if(vk == NONE || vk >= NFS) vk = COMP;
      Amp e = act(mop, m, amplitudes(x, vk));
      if(perform(op, [&] {
           with(z, [&](auto& b) {
             typedef std::remove_reference_t<decltype(b)> E;
             view(b, vk, [&](auto& w) {
               cwith(x, [&](auto const& a) { cview(a, COMP == vk || COMP_VAL == vk ? COMP : MAPPED, [&](auto const& s) { op_(s, w); }); });
             }, owner<E>());
           });
         }, [&] { check(&z, "failed"); }))
        result_in(z, vk, e);
      break;
    }
    case PAR_APPLY: {
      Slot& z = slot[(op.a[0] % NSLOTS) ^ 1];
      bool src_ok = true;
      for(auto const& a : amplitudes(x, NONE)) src_ok = src_ok && m.is_state(a.first);
      if(!src_ok) break;
      int k = var % 3;
      std::vector<S> buf;
      Amp e = act(mpar[k], m, amplitudes(x, NONE));
      if(perform(op, [&] {
           with(z, [&](auto& b) {
             typedef std::remove_reference_t<decltype(b)> E;
             with(x, [&](auto& a) {
               apply_same(static_cast<std::remove_reference_t<decltype(a)> const&>(a), b, k * 0.5, buf, var & 4, std::is_same<std::remove_reference_t<decltype(a)>, E>());
             });
           });
         }, [&] { check(&z, "failed"); }))
        result(z, NONE, e);
      break;
    }
    case LIKE: {
      long size = -1;
      bool zero = true;
      if(!perform(op, [&] {
           cwith(x, [&](auto const& e) {
             V t = zeros_like(e);
             size = long(t.size());
             zero = true;
             for(long i = 0; i < size; ++i) zero = zero && t[i] == S(0);
           });
         }, unchanged))
        break;
      if(size != long(n) || !zero) fail("wrong-result", "%s: not %ld zeros", what, long(n));
      // another length
      long len = r.range(0, 9);
      if(!perform(op, [&] {
           V t = V::Constant(len, S(3));
           V const u = t;
           V z = zeros_like(u);
           size = long(z.size());
           zero = true;
           for(long i = 0; i < size; ++i) zero = zero && z[i] == S(0);
         }, unchanged))
        break;
      if(size != len || !zero) fail("wrong-result", "%s: not %ld zeros", what, len);
      break;
    }
    case MAKE_OP: make(r); break;
    }
    check(nullptr, "completed");
  }
  template <class E> void apply_same(E const& a, E& b, double k, std::vector<S>& buf, bool store, std::true_type) {
    if(store)
      par->act_and_store_coeffs(a, b, buf, k);
    else
      (*par)(a, b, k);
  }
  template <class A, class B> void apply_same(A const&, B&, double, std::vector<S>&, bool, std::false_type) {}
  // amplitudes outside of the view's part must be zero after an application
  void result_in(Slot& z, int vk, Amp const& e) {
    result(z, vk, e);
    std::vector<char> in(n, 0);
    for(u64 k = 0; k < count(vk); ++k) in[pos(vk, state(vk, k))] = 1;
    for(u64 i = 0; i < n; ++i)
      if(!in[i] && z.model[where(z, i)] != 0.0) fail("wrong-result", "%s: an amplitude outside of the view appeared", what);
  }
  void each(Op const& op, Slot& x, int vk, int var) {
    Amp e = amplitudes(x, vk), got;
    u64 stop = var % 5 == 0 ? 1 + u64(var / 5) % 4 : 0, seen = 0, last = 0;
    int nested = var % 4 == 1 ? 1 : 0;
    bool cs = var & 2, done = false, inner = var % 4 == 2;
    M other_m = M::Constant(1 + var % 7, 2, S(2));
    V const other = other_m.col(1);
    auto const other_block = other_m.block(0, 1, other.size(), 1);
    auto walk = [&](auto const& w) {
      foreach(w, [&](lc::sv_index_type st, S const& a) {
        point(K_CB);
        Pause pp;
        if(vk != MAPPED && vk != MAPPED_VAL && !got.empty() && pos(vk, st) <= last)
          fail("wrong-traversal", "%s: %s%s: state %llu is visited too late", what, shape_name[x.shape], view_name[vk], (unsigned long long)st);
        if(vk != MAPPED && vk != MAPPED_VAL) last = pos(vk, st);
        if(!got.emplace(st, val(a)).second)
          fail("wrong-traversal", "%s: state %llu of %s%s is visited twice", what, (unsigned long long)st, shape_name[x.shape], view_name[vk]);
        if(nested) {
          u64 k = 0;
          foreach(w, [&](lc::sv_index_type, S const&) { ++k; });
          if(k != e.size()) fail("wrong-traversal", "%s: %llu states instead of %zu in a nested traversal", what, (unsigned long long)k, e.size());
        } else if(inner) { // vectors of other lengths
          u64 k = 0;
          foreach(other, [&](lc::sv_index_type, S const&) { ++k; });
          foreach(other_block, [&](lc::sv_index_type, S const&) { ++k; });
          if(k != 2 * u64(other.size()))
            fail("wrong-traversal", "%s: %llu states instead of %ld in a nested traversal", what, (unsigned long long)k, 2 * long(other.size()));
        }
        if(++seen == stop) throw Stop();
      });
    };
    bool ok = perform(op, [&] {
      got.clear();
      seen = 0;
      done = false;
      try {
        if(cs)
          cwith(x, [&](auto const& v) { cview(v, vk, walk); });
        else
          with(x, [&](auto& v) {
            typedef std::remove_reference_t<decltype(v)> E;
            view(v, vk, walk, owner<E>());
          });
        done = true;
      } catch(Stop const&) {
      }
    }, [&] { check(nullptr, "failed"); });
    if(!ok) return;
    if(done ? got != e : got.size() != stop)
      fail("wrong-traversal", "%s: the traversal of %s%s visits %s instead of %s", what, shape_name[x.shape], view_name[vk], text(got).c_str(),
           text(e).c_str());
    for(auto const& a : got)
      if(!e.count(a.first) || e[a.first] != a.second)
        fail("wrong-traversal", "%s: the traversal of %s%s visits %s instead of %s", what, shape_name[x.shape], view_name[vk], text(got).c_str(),
             text(e).c_str());
    log_amp(got);
  }

  void run() {
    Rng r(plan.seed + 77);
    make(r);
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      for(auto& x : slot) // keep numbers in range
        for(u64 i = 0; i < n; ++i)
          if(!(std::abs(cell(x, i)) < 1e8)) put(x, i, 0);
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
    check(nullptr, "finally");
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {int(r.below(1000)), 0, r.range(1, 15)};
  int n = size ? size : r.range(6, 24);
  for(int i = 0; i < n; ++i) {
    Op o;
    o.code = i < 4 ? int(FILL) : int(r.below(NCODES));
    for(int& a : o.a) a = int(r.below(1 << 15));
    if(o.code == APPLY_RET) o.a[0] &= 1, o.a[1] = 1 - o.a[0];
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<double, UIdx> TheRun;
#define SIM_NAME "G0"
#else
typedef Run<cplx, int> TheRun;
#define SIM_NAME "G1"
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  return std::string(code_name[o.code % NCODES]) + " " + shape_name[o.a[0] % (2 * NSHAPES) / 2] + view_name[o.a[2] % NVIEWS];
}
} // namespace
SIM_SCENARIO(G, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_IDX | 1u << K_GEN | 1u << K_ES | 1u << K_COEF | 1u << K_CB | 1u << K_SCALAR, describe)
} // namespace sim
