// Scenario E: arithmetic of expressions, interrupted at arbitrary points.
// Four expressions with scalars S and two with "real" scalars R share their
// generators; every operation works on some of them. After every attempt all
// six are compared with the values they must have.
#if SIM_CONF == 3 // rational numbers of other libraries
#include <gmpxx.h>
#include <libcommute/libcommute.hpp>
#include <libcommute/scalars/gmpxx.hpp>
namespace sim {
inline std::complex<double> val(mpq_class const& x) { return x.get_d(); }
} // namespace sim
#elif SIM_CONF == 4
#include <boost/rational.hpp>
#include <libcommute/libcommute.hpp>
#include <libcommute/scalars/boost_rational.hpp>
namespace sim {
inline std::complex<double> val(boost::rational<long> const& x) { return boost::rational_cast<double>(x); }
} // namespace sim
#endif
#include "userlib.hpp"

#include <algorithm>
#include <functional>
#include <sstream>

namespace sim {
#if SIM_CONF == 3
template <> struct from_c<mpq_class> {
  static mpq_class make(cplx x) { return mpq_class(x.real()); }
  enum { real = 1 };
};
#elif SIM_CONF == 4
template <> struct from_c<boost::rational<long>> {
  static boost::rational<long> make(cplx x) { return boost::rational<long>(long(x.real() * 64), 64); }
  enum { real = 1 };
};
#endif
namespace {

enum Code {
  MAKE, COPY_ASSIGN, MOVE_ASSIGN, COPY_CONS, ADD_EQ, SUB_EQ, MUL_EQ, ADD, SUB, MUL, NEG, CONJ,
  MULS_EQ, ADDS_EQ, SUBS_EQ, MULS, ADDS, SUBS, TRANSFORM, HC, MIX_BIN, MIX_EQ, MIX_SCALAR, MIX_CONV,
  MIX_TRANSFORM, CLEAR, MONOMIAL, ITERATE, COMPARE, COMMUTATOR, FACTORY, SWAP, POWER, PRINT, R_OPS, SELF, RICH, TINY,
  NCODES
};
const char* const code_name[NCODES] = {
    "make", "copy-assign", "move-assign", "copy-construct", "+=", "-=", "*=", "+", "-", "*", "unary-minus", "conj",
    "*=scalar", "+=scalar", "-=scalar", "*scalar", "+scalar", "-scalar", "transform", "hc", "mixed-binary", "mixed-assign",
    "mixed-scalar", "mixed-convert", "mixed-transform", "clear", "monomial", "iterate", "compare", "commutator", "factory",
    "swap", "power", "print", "real-ops", "self-op", "build", "conj-tiny"};

template <class S_, class R_, typename... I> struct Conf {
  typedef S_ S;
  typedef R_ R;
  typedef lc::expression<S, I...> X;
  typedef lc::expression<R, I...> XR;
  typedef lc::monomial<I...> M;
  typedef std::tuple<I...> Tup;
  static M mono(Word const& w) { return make_mono<I...>(w); }
};

template <class C> struct Run {
  typedef typename C::S S;
  typedef typename C::R R;
  typedef typename C::X X;
  typedef typename C::XR XR;
  typedef typename C::M M;
  enum { NX = 4, NR = 2 };
  X x[NX];
  XR xr[NR];
  Poly mx[NX], mr[NR]; // expected values
  Plan const& plan;
  int n_idx, flavour;
  const char* what = "";

  explicit Run(Plan const& p) : plan(p), n_idx(p.cfg[1]), flavour(p.cfg[2]) {}

  Poly rd(X const& e) { return read_expr(e); }
  template <class E> Poly rde(E const& e) { return read_expr(e); }

  // everything except slots `sx`, `sr` must have its old value
  void others(int sx, int sr, const char* when) {
    for(int i = 0; i < NX; ++i)
      if(i != sx && !same(rde(x[i]), mx[i]))
        fail("operand-changed", "%s %s: expression %d, which is not the target, changed from %s to %s", what, when, i,
             text(mx[i]).c_str(), text(rde(x[i])).c_str());
    for(int i = 0; i < NR; ++i)
      if(i != sr && !same(rde(xr[i]), mr[i]))
        fail("operand-changed", "%s %s: expression r%d, which is not the target, changed from %s to %s", what, when, i,
             text(mr[i]).c_str(), text(rde(xr[i])).c_str());
  }
  static cplx coef(Dict const& d, Word const& w) {
    auto it = d.find(w);
    return it == d.end() ? 0 : it->second;
  }
  // After a failed in-place operation: every term is old or new
  void mixture(Poly const& old, Poly const& nw, Poly const& got, bool absent_ok) {
    check_canonical(got, what);
    Dict o = dict(old), n = dict(nw), t = dict(got);
    for(auto const& e : t) {
      bool ok = (o.count(e.first) && o[e.first] == e.second) || (n.count(e.first) && n[e.first] == e.second);
      if(!ok)
        fail("torn-term", "%s failed and left %s, which is neither the old %s nor the new %s", what,
             text(Poly{Term(e.first, e.second)}).c_str(), text(old).c_str(), text(nw).c_str());
    }
    if(absent_ok) return;
    for(auto const& e : o)
      if(!t.count(e.first) && n.count(e.first))
        fail("lost-term", "%s failed and lost term %s", what, text(e.first).c_str());
  }

  // In-place operation on x[i] (or xr[i]); `nw` computes the new value from the old one.
  // exact: compare terms exactly; otherwise compare by action.
  void inplace(Op const& op, int sx, int sr, std::function<Poly(Poly const&)> const& nw, bool exact, bool atomic,
               bool absent_ok, Fn f) {
    Poly& m = sx >= 0 ? mx[sx] : mr[sr];
    auto cur = [&]() { return sx >= 0 ? rde(x[sx]) : rde(xr[sr]); };
    perform(op, f, [&]() {
      Poly got = cur();
      if(atomic) {
        if(!same(got, m))
          fail("target-changed", "%s failed and changed its target from %s to %s", what, text(m).c_str(), text(got).c_str());
      } else {
        mixture(m, nw(m), got, absent_ok);
        if(!same(got, m)) probe(0);
        m = got;
      }
      others(sx, sr, "failed");
    }) ? finish(sx, sr, nw(m), exact)
       : void();
  }
  void finish(int sx, int sr, Poly const& expect, bool exact) {
    Poly got = sx >= 0 ? rde(x[sx]) : rde(xr[sr]);
    verify(got, expect, exact);
    (sx >= 0 ? mx[sx] : mr[sr]) = got;
    others(sx, sr, "completed");
  }
  void verify(Poly const& got, Poly const& expect, bool exact) {
    check_canonical(got, what);
    if(exact) {
      if(!same(got, expect))
        fail("wrong-value", "%s gives %s instead of %s", what, text(got).c_str(), text(expect).c_str());
    } else
      check_equal_action(got, expect, plan.seed + u64(sh->cur_op), what);
    log_poly(got);
  }
  // Operation that creates a new value and stores it in x[d]
  template <class F> void create(Op const& op, int d, Poly const& expect, bool exact, F&& f) {
    bool done = perform(
        op,
        [&]() {
          X r = f();
          x[d] = std::move(r);
        },
        [&]() { others(-1, -1, "failed"); });
    if(done) finish(d, -1, expect, exact);
  }
  template <class F> void create_r(Op const& op, int d, Poly const& expect, bool exact, F&& f) {
    bool done = perform(
        op,
        [&]() {
          XR r = f();
          xr[d] = std::move(r);
        },
        [&]() { others(-1, -1, "failed"); });
    if(done) finish(-1, d, expect, exact);
  }

  //---------------------------------------------------------------- generators of inputs
  Letter letter(Rng& r) {
    Letter l;
    l.idx = int(r.below(u64(n_idx)));
    l.mult = 0;
    int k;
    switch(flavour) {
    case 0: k = int(r.below(3)); break;              // predefined algebras
    case 1: k = 0; break;                            // fermions
    case 2: k = 1; break;                            // bosons
    case 3: k = 2; break;                            // spins
    case 4: k = 3 + int(r.below(6)); break;          // user algebras
    case 5: k = r.chance(1, 2) ? 0 : 3 + int(r.below(6)); break;
    default: k = int(r.below(9));
    }
    switch(k) {
    case 0: l.alg = lc::fermion; l.a = int(r.below(2)); break;
    case 1: l.alg = lc::boson; l.a = int(r.below(2)); break;
    case 2:
      l.alg = lc::spin;
      l.a = int(r.below(3));
      l.mult = r.chance(1, 2) ? 2 : r.range(2, 4);
      break;
    case 3: l.alg = WITT; l.idx &= 1; l.a = r.range(-2, 2); break;
    case 4: l.alg = CLIFF; l.idx &= 1; l.a = r.range(0, 2); break;
    case 5: l.alg = QUAT; l.idx &= 1; l.a = r.range(0, 2); break;
    case 6: l.alg = TRI; l.idx &= 1; l.a = 0; break;
    case 7: l.alg = CYC; l.idx &= 1; l.a = 0; break;
    default: l.alg = PROJ; l.idx &= 1; l.a = 0; break;
    }
    return l;
  }
  Word word(Rng& r, int maxlen) {
    Word w;
    int n = int(r.below(u64(maxlen + 1)));
    for(int i = 0; i < n; ++i) {
      if(i && r.chance(1, 5))
        w.push_back(w.back()); // powers
      else
        w.push_back(letter(r));
    }
    return w;
  }
  static cplx number(Rng& r) {
    static const double v[] = {1, -1, 2, -2, 0.5, 3, -0.5, 1};
    cplx c(v[r.below(8)], 0);
    if(r.chance(1, 3)) c *= cplx(0, 1);
    if(r.chance(1, 6)) c += 1.0;
    return c;
  }
  // coefficient in type S or R
  static cplx num_for(Rng& r, bool real) {
    cplx c = number(r);
    if(real) c = cplx(c.real() == 0 ? 1 : c.real(), 0);
    return c;
  }
  template <class E> static bool too_big(E const& p) {
    if(p.size() > 14) return true;
    for(auto const& t : p)
      if(t.first.size() > 6) return true;
    return max_coeff(p) > 1e5;
  }
  static int longest(Poly const& p) {
    int n = 0;
    for(auto const& t : p) n = std::max(n, int(t.first.size()));
    return n;
  }
  static bool product_ok(Poly const& a, Poly const& b) {
    return a.size() * b.size() <= 42 && longest(a) + longest(b) <= 9 && max_coeff(a) * max_coeff(b) < 1e6;
  }

  //---------------------------------------------------------------- model
  static Poly m_add(Poly const& a, Poly const& b, cplx s) {
    Dict d = dict(a);
    for(auto const& t : b) d[t.first] += s * t.second;
    return poly(d);
  }
  static Poly m_mul(Poly const& a, Poly const& b) { // not normalised
    Poly r;
    for(auto const& s : a)
      for(auto const& t : b) {
        Word w = s.first;
        w.insert(w.end(), t.first.begin(), t.first.end());
        r.emplace_back(w, s.second * t.second);
      }
    return r;
  }
  static Poly m_scale(Poly const& a, cplx s) {
    Poly r;
    if(s == 0.0) return r;
    for(auto const& t : a) r.emplace_back(t.first, t.second * s);
    return r;
  }
  static Poly m_conj(Poly const& a) {
    Poly r;
    for(auto const& t : a) {
      double sg = 1;
      Word w = conj(t.first, sg);
      Poly q{Term(Word(), std::conj(t.second) * sg)};
      for(auto const& l : w) {
        std::size_t n = q.size();
        for(std::size_t k = 0; k < n; ++k) {
          if(l.alg == PROJ) { // 1 - P
            q.push_back(q[k]);
            q[k].second = -q[k].second;
          }
          q[k].first.push_back(l);
        }
      }
      r.insert(r.end(), q.begin(), q.end());
    }
    return r;
  }
  static Poly m_const(cplx s) {
    Poly r;
    if(s != 0.0) r.emplace_back(Word(), s);
    return r;
  }
  static Poly cat(Poly a, Poly const& b, cplx s) {
    for(auto const& t : b) a.emplace_back(t.first, s * t.second);
    return a;
  }

  //---------------------------------------------------------------- one operation
  void step(Op const& op) {
    what = code_name[op.code];
    Rng r(u64(op.a[3]) * 65599 + u64(op.a[4]));
    int i = op.a[0] % NX, j = op.a[1] % NX, d = op.a[2] % NX;
    int ri = op.a[0] % NR, rj = op.a[1] % NR;
    int var = op.a[5];
    if(g.verbose)
      trace("op %d %s: x%d x%d -> x%d  (x%d = %s; x%d = %s)", sh->cur_op, what, i, j, d, i, text(mx[i]).c_str(), j,
            text(mx[j]).c_str());
    // keep sizes bounded
    for(int k = 0; k < NX; ++k)
      if(too_big(mx[k])) {
        x[k].clear();
        mx[k].clear();
      }
    for(int k = 0; k < NR; ++k)
      if(too_big(mr[k])) {
        xr[k].clear();
        mr[k].clear();
      }
    bool real_s = from_c<S>::real, real_r = from_c<R>::real;

    switch(op.code) {
    case MAKE: {
      Word w = word(r, 5);
      cplx c = num_for(r, real_s);
      M m = C::mono(w);
      S s = from_c<S>::make(c);
      if(var % 5 == 0) { // real slot
        cplx cr = num_for(r, real_r);
        R sr = from_c<R>::make(cr);
        create_r(op, ri, Poly{Term(w, cr)}, false, [&] { return XR(sr, m); });
      } else
        create(op, d, Poly{Term(w, c)}, false, [&] { return X(s, m); });
      if(read_mono(m) != w) fail("operand-changed", "constructing an expression changed the monomial it was made from");
      break;
    }
    case RICH: { // several terms at once
      int n = 2 + var % 6;
      std::vector<M> ms;
      std::vector<S> ss;
      Poly e;
      for(int k = 0; k < n; ++k) {
        Word w = word(r, 3);
        if(k == 0 && r.chance(1, 3)) w.clear();
        cplx c = num_for(r, real_s);
        e.emplace_back(w, c);
        ms.push_back(C::mono(w));
        ss.push_back(from_c<S>::make(c));
      }
      if(var % 3 == 0) { // real slot, sharing terms with others
        std::vector<R> sr;
        Poly er;
        for(int k = 0; k < n; ++k) {
          cplx c = num_for(r, real_r);
          er.emplace_back(e[std::size_t(k)].first, c);
          sr.push_back(from_c<R>::make(c));
        }
        create_r(op, ri, er, false, [&] {
          XR t;
          for(int k = 0; k < n; ++k) t += XR(sr[std::size_t(k)], ms[std::size_t(k)]);
          return t;
        });
      }
      create(op, d, e, false, [&] {
        X t;
        for(int k = 0; k < n; ++k) t += X(ss[std::size_t(k)], ms[std::size_t(k)]);
        return t;
      });
      break;
    }
    case COPY_ASSIGN: {
      Poly nw = mx[j];
      inplace(op, i, -1, [&](Poly const&) { return nw; }, true, false, true, [&] { x[i] = x[j]; });
      break;
    }
    case MOVE_ASSIGN: {
      if(i == j) break;
      Poly nw = mx[j];
      attempt(nullptr, [&] { x[i] = std::move(x[j]); });
      mx[j] = rde(x[j]);
      check_canonical(mx[j], "moved-from expression");
      finish(i, -1, nw, true);
      break;
    }
    case COPY_CONS:
      create(op, d, mx[i], true, [&] { return X(x[i]); });
      break;
    case ADD_EQ: {
      Poly b = mx[j];
      inplace(op, i, -1, [&](Poly const& a) { return m_add(a, i == j ? a : b, 1); }, true, false, false,
              [&] { x[i] += x[j]; });
      break;
    }
    case SUB_EQ: {
      Poly b = mx[j];
      inplace(op, i, -1, [&](Poly const& a) { return m_add(a, i == j ? a : b, -1); }, true, false, false,
              [&] { x[i] -= x[j]; });
      break;
    }
    case MUL_EQ: {
      if(!product_ok(mx[i], mx[j])) break;
      Poly b = mx[j];
      inplace(op, i, -1, [&](Poly const& a) { return m_mul(a, i == j ? a : b); }, false, true, false,
              [&] { x[i] *= x[j]; });
      break;
    }
    case ADD: create(op, d, m_add(mx[i], mx[j], 1), true, [&] { return x[i] + x[j]; }); break;
    case SUB: create(op, d, m_add(mx[i], mx[j], -1), true, [&] { return x[i] - x[j]; }); break;
    case MUL:
      if(!product_ok(mx[i], mx[j])) break;
      create(op, d, m_mul(mx[i], mx[j]), false, [&] { return x[i] * x[j]; });
      break;
    case NEG: create(op, d, m_scale(mx[i], -1), true, [&] { return -x[i]; }); break;
    case CONJ: create(op, d, m_conj(mx[i]), false, [&] { return conj(x[i]); }); break;
    case MULS_EQ: {
      cplx c = var % 9 == 0 ? 0 : num_for(r, real_s);
      S s = from_c<S>::make(c);
      inplace(op, i, -1, [&](Poly const& a) { return m_scale(a, c); }, true, false, false, [&] { x[i] *= s; });
      break;
    }
    case ADDS_EQ: {
      cplx c = var % 9 == 0 ? 0 : var % 3 == 0 ? -coef(dict(mx[i]), Word()) : num_for(r, real_s);
      S s = from_c<S>::make(c);
      inplace(op, i, -1, [&](Poly const& a) { return m_add(a, m_const(c), 1); }, true, false, false, [&] { x[i] += s; });
      break;
    }
    case SUBS_EQ: {
      cplx c = var % 9 == 0 ? 0 : var % 3 == 0 ? coef(dict(mx[i]), Word()) : num_for(r, real_s);
      S s = from_c<S>::make(c);
      inplace(op, i, -1, [&](Poly const& a) { return m_add(a, m_const(c), -1); }, true, false, false, [&] { x[i] -= s; });
      break;
    }
    case MULS: {
      cplx c = var % 9 == 0 ? 0 : num_for(r, real_s);
      S s = from_c<S>::make(c);
      create(op, d, m_scale(mx[i], c), true, [&] { return var & 1 ? x[i] * s : s * x[i]; });
      break;
    }
    case ADDS: {
      cplx c = var % 9 == 0 ? 0 : var % 3 == 0 ? -coef(dict(mx[i]), Word()) : num_for(r, real_s);
      S s = from_c<S>::make(c);
      create(op, d, m_add(mx[i], m_const(c), 1), true, [&] { return var & 1 ? x[i] + s : s + x[i]; });
      break;
    }
    case SUBS: {
      cplx c = var % 9 == 0 ? 0 : var % 3 == 0 ? coef(dict(mx[i]), Word()) : num_for(r, real_s);
      S s = from_c<S>::make(c);
      if(var & 1)
        create(op, d, m_add(mx[i], m_const(c), -1), true, [&] { return x[i] - s; });
      else
        create(op, d, m_add(m_const(c), mx[i], -1), true, [&] { return s - x[i]; });
      break;
    }
    case TRANSFORM: { // multiplies coefficients by 1 + length of monomial; drops some
      int drop = var % 4;
      Poly e;
      for(auto const& t : mx[i])
        if(int(t.first.size()) % 4 != drop) e.emplace_back(t.first, t.second * (1.0 + double(t.first.size())));
      create(op, d, e, true, [&] {
        std::size_t n = 0;
        return transform(x[i], [&](M const& m, S const& c) -> S {
          point(K_CB);
          Pause p;
          if(n >= mx[i].size() || read_mono(m) != mx[i][n].first || val(c) != mx[i][n].second)
            fail("wrong-traversal", "transform() passed a wrong term to its functor");
          ++n;
          if(int(m.size()) % 4 == drop) return from_c<S>::make(0);
          return from_c<S>::make(val(c) * (1.0 + double(m.size())));
        });
      });
      break;
    }
    case TINY: tiny(op, i, j, var, std::is_same<S, cplx>()); break;
    case HC:
      if(var & 1)
        create(op, d, cat(mx[i], m_conj(mx[i]), 1), false, [&] { return x[i] + lc::hc; });
      else
        create(op, d, cat(mx[i], m_conj(mx[i]), -1), false, [&] { return x[i] - lc::hc; });
      break;
    case MIX_BIN:
      switch(var % 6) {
      case 0: create(op, d, m_add(mx[i], mr[rj], 1), true, [&] { return x[i] + xr[rj]; }); break;
      case 1: create(op, d, m_add(mr[rj], mx[i], 1), true, [&] { return xr[rj] + x[i]; }); break;
      case 2: create(op, d, m_add(mx[i], mr[rj], -1), true, [&] { return x[i] - xr[rj]; }); break;
      case 3: create(op, d, m_add(mr[rj], mx[i], -1), true, [&] { return xr[rj] - x[i]; }); break;
      case 4:
        if(product_ok(mx[i], mr[rj]))
          create(op, d, m_mul(mx[i], mr[rj]), false, [&] { return x[i] * xr[rj]; });
        break;
      default:
        if(product_ok(mr[rj], mx[i]))
          create(op, d, m_mul(mr[rj], mx[i]), false, [&] { return xr[rj] * x[i]; });
      }
      break;
    case MIX_EQ: {
      Poly b = mr[rj];
      switch(var % 3) {
      case 0:
        inplace(op, i, -1, [&](Poly const& a) { return m_add(a, b, 1); }, true, false, false, [&] { x[i] += xr[rj]; });
        break;
      case 1:
        inplace(op, i, -1, [&](Poly const& a) { return m_add(a, b, -1); }, true, false, false, [&] { x[i] -= xr[rj]; });
        break;
      default:
        if(product_ok(mx[i], mr[rj]))
          inplace(op, i, -1, [&](Poly const& a) { return m_mul(a, b); }, false, true, false, [&] { x[i] *= xr[rj]; });
      }
      break;
    }
    case MIX_SCALAR: {
      cplx c = var % 9 == 0 ? 0 : num_for(r, real_r), cs = num_for(r, real_s);
      R s = from_c<R>::make(c);
      S ss = from_c<S>::make(cs);
      switch(var % 12) {
      case 0: create(op, d, m_scale(mx[i], c), true, [&] { return x[i] * s; }); break;
      case 1: create(op, d, m_scale(mx[i], c), true, [&] { return s * x[i]; }); break;
      case 2: create(op, d, m_add(mx[i], m_const(c), 1), true, [&] { return x[i] + s; }); break;
      case 3: create(op, d, m_add(mx[i], m_const(c), 1), true, [&] { return s + x[i]; }); break;
      case 4: create(op, d, m_add(mx[i], m_const(c), -1), true, [&] { return x[i] - s; }); break;
      case 5: create(op, d, m_add(m_const(c), mx[i], -1), true, [&] { return s - x[i]; }); break;
      case 6: create(op, d, m_scale(mr[rj], cs), true, [&] { return xr[rj] * ss; }); break;
      case 7: create(op, d, m_scale(mr[rj], cs), true, [&] { return ss * xr[rj]; }); break;
      case 8: create(op, d, m_add(mr[rj], m_const(cs), 1), true, [&] { return xr[rj] + ss; }); break;
      case 9: create(op, d, m_add(mr[rj], m_const(cs), 1), true, [&] { return ss + xr[rj]; }); break;
      case 10: create(op, d, m_add(mr[rj], m_const(cs), -1), true, [&] { return xr[rj] - ss; }); break;
      default: create(op, d, m_add(m_const(cs), mr[rj], -1), true, [&] { return ss - xr[rj]; }); break;
      }
      break;
    }
    case MIX_CONV: {
      Poly nw = mr[rj];
      if(var & 1)
        create(op, d, nw, true, [&] { return X(xr[rj]); });
      else
        inplace(op, i, -1, [&](Poly const&) { return nw; }, true, false, true, [&] { x[i] = xr[rj]; });
      break;
    }
    case MIX_TRANSFORM: { // real parts
      Poly e;
      for(auto const& t : mx[i]) {
        cplx c = from_c<R>::real ? cplx(t.second.real()) : t.second;
        if(c != 0.0) e.emplace_back(t.first, c);
      }
      create_r(op, rj, e, true, [&] {
        return transform(x[i], [&](M const&, S const& c) -> R {
          point(K_CB);
          return from_c<R>::make(val(c));
        });
      });
      break;
    }
    case CLEAR:
      attempt(nullptr, [&] { x[i].clear(); });
      finish(i, -1, Poly(), true);
      break;
    case MONOMIAL: monomial_op(op, r, var); break;
    case ITERATE: {
      Poly got, back;
      perform(
          op,
          [&] {
            Pause p;
            got.clear();
            back.clear();
            auto it = x[i].begin();
            auto end = x[i].end();
            std::size_t n = 0;
            for(; it != end; ++it) {
              got.emplace_back(read_mono((*it).monomial), val((*it).coeff));
              if(it->monomial.size() != got.back().first.size()) fail("wrong-traversal", "operator-> of an iterator");
              ++n;
            }
            auto bi = x[i].cend();
            while(bi != x[i].cbegin()) {
              --bi;
              back.emplace_back(read_mono((*bi).monomial), val((*bi).coeff));
            }
          },
          [&]() { others(-1, -1, "failed"); });
      std::vector<Term> rev(back.rbegin(), back.rend());
      if(!same(got, mx[i]) || !same(rev, mx[i])) fail("wrong-traversal", "iteration over an expression misses or repeats terms");
      for(auto const& m : x[i].get_monomials()) {
        Word w = read_mono(m.first), b;
        for(auto it = m.first.rbegin(); it != m.first.rend(); ++it) b.push_back(read_gen(*it));
        std::reverse(b.begin(), b.end());
        if(w != b) fail("wrong-traversal", "reverse iteration over a monomial");
        for(std::size_t k = 0; k < w.size(); ++k)
          if(read_gen(m.first[k]) != w[k]) fail("wrong-traversal", "monomial::operator[]");
      }
      break;
    }
    case COMPARE: {
      bool eq = false, ne = false;
      if(perform(
             op,
             [&] {
               eq = x[i] == x[j];
               ne = x[i] != x[j];
             },
             [&]() { others(-1, -1, "failed"); })) {
        bool e = same(mx[i], mx[j]);
        if(eq != e || ne == e) fail("wrong-value", "comparison of %s and %s", text(mx[i]).c_str(), text(mx[j]).c_str());
        log_u64(e);
      }
      break;
    }
    case COMMUTATOR:
      if(!product_ok(mx[i], mx[j]) || mx[i].size() * mx[j].size() > 16) break;
      create(op, d, cat(m_mul(mx[i], mx[j]), m_mul(mx[j], mx[i]), -1), false, [&] { return x[i] * x[j] - x[j] * x[i]; });
      break;
    case FACTORY: factory(op, r, d); break;
    case SWAP:
      attempt(nullptr, [&] {
        using std::swap;
        swap(x[i], x[j]);
      });
      std::swap(mx[i], mx[j]);
      others(-1, -1, "completed");
      break;
    case POWER: {
      if(mx[i].size() > 3 || longest(mx[i]) > 3 || max_coeff(mx[i]) > 100) break;
      create(op, d, m_mul(m_mul(mx[i], mx[i]), mx[i]), false, [&] { return x[i] * x[i] * x[i]; });
      break;
    }
    case PRINT: {
      std::string s;
      if(perform(
             op,
             [&] {
               QuietSink sink;
               std::ostream os(&sink);
               os << x[i];
               s = std::move(sink.s);
             },
             [&]() { others(-1, -1, "failed"); }))
        log_str(s);
      break;
    }
    case R_OPS: {
      Poly b = mr[rj];
      cplx c = num_for(r, real_r);
      switch(var % 5) {
      case 0:
        inplace(op, -1, ri, [&](Poly const& a) { return m_add(a, ri == rj ? a : b, 1); }, true, false, false,
                [&] { xr[ri] += xr[rj]; });
        break;
      case 1:
        inplace(op, -1, ri, [&](Poly const& a) { return m_add(a, ri == rj ? a : b, -1); }, true, false, false,
                [&] { xr[ri] -= xr[rj]; });
        break;
      case 2:
        if(product_ok(mr[ri], mr[rj]))
          inplace(op, -1, ri, [&](Poly const& a) { return m_mul(a, ri == rj ? a : b); }, false, true, false,
                  [&] { xr[ri] *= xr[rj]; });
        break;
      case 3: create_r(op, ri, m_add(mr[ri], mr[rj], 1), true, [&] { return xr[ri] + xr[rj]; }); break;
      default: {
        R s = from_c<R>::make(c);
        create_r(op, ri, m_scale(mr[rj], c), true, [&] { return s * xr[rj]; });
      }
      }
      break;
    }
    case SELF: // self-referential operations
      switch(var % 6) {
      case 0: inplace(op, i, -1, [](Poly const& a) { return m_add(a, a, 1); }, true, false, false, [&] { x[i] += x[i]; }); break;
      case 1: inplace(op, i, -1, [](Poly const& a) { return m_add(a, a, -1); }, true, false, false, [&] { x[i] -= x[i]; }); break;
      case 2:
        if(product_ok(mx[i], mx[i]))
          inplace(op, i, -1, [](Poly const& a) { return m_mul(a, a); }, false, true, false, [&] { x[i] *= x[i]; });
        break;
      case 3: {
        X& self = x[i];
        inplace(op, i, -1, [](Poly const& a) { return a; }, true, false, true, [&] { x[i] = self; });
        break;
      }
      case 4: { // scalar that lives inside the target
        if(mx[i].empty()) break;
        std::size_t k = u64(op.a[4]) % mx[i].size();
        auto it = x[i].get_monomials().begin();
        std::advance(it, long(k));
        Poly old = mx[i];
        cplx c = old[k].second;
        if(mx[i].size() > 1 && mx[i][0].first.size() == 0 && k == 0) break;
        create(op, d, m_add(old, m_const(c), 1), true, [&] { return x[i] + it->second; });
        break;
      }
      default:
        if(!product_ok(mx[i], mx[i])) break;
        create(op, i, cat(m_mul(mx[i], mx[i]), mx[i], -1), false, [&] { return x[i] * x[i] - x[i]; });
      }
      break;
    }
  }

  void monomial_op(Op const& op, Rng& r, int var) {
    Word w1 = word(r, 4), w2 = word(r, 4);
    Letter l = letter(r);
    M m1 = C::mono(w1), m2 = C::mono(w2);
    M one = C::mono(Word{l});
    M res;
    Word e = w1;
    auto plus = [&](Word const& w) { e.insert(e.end(), w.begin(), w.end()); };
    std::size_t cut = w2.size() / 2;
    bool done = true;
    auto unchanged = [&] {
      if(read_mono(m1) != w1 || read_mono(m2) != w2 || read_mono(one) != Word{l})
        fail("operand-changed", "a monomial operation changed its operand");
      others(-1, -1, "failed");
    };
    switch(var % 7) {
    case 0:
      plus(w2);
      done = perform(op, [&] { res = concatenate(m1, m2); }, unchanged);
      break;
    case 1:
      plus(Word{l});
      plus(Word(w2.begin() + long(cut), w2.end()));
      done = perform(
          op, [&] { res = concatenate(m1, one[0], std::make_pair(m2.begin() + cut, m2.end())); }, unchanged);
      break;
    case 2: {
      M t = m1;
      plus(w2);
      done = perform(
          op,
          [&] {
            M u = t;
            u.append(m2);
            res = u;
          },
          unchanged);
      if(read_mono(t) != w1) fail("operand-changed", "appending to a copy of a monomial changed the original");
      break;
    }
    case 5:
    case 6: { // appending a generator, then a range, to a monomial that lives on
      M u;
      auto range = std::make_pair(m2.begin() + cut, m2.end());
      plus(Word{l});
      plus(Word(w2.begin() + long(cut), w2.end()));
      done = perform(
          op,
          [&] {
            u = m1;
            u.append(one[0]);
            u.append(range);
          },
          [&] {
            Word got = read_mono(u);
            if(got.size() > e.size() || !std::equal(got.begin(), got.end(), e.begin()))
              fail("torn", "a failed append leaves %s: no part of %s", text(got).c_str(), text(e).c_str());
            unchanged();
          });
      if(done) res = u;
      break;
    }
    case 3: {
      if(w1.size() < 2) return;
      std::size_t a = u64(op.a[3]) % w1.size(), b = u64(op.a[4]) % w1.size();
      std::swap(e[a], e[b]);
      done = perform(
          op,
          [&] {
            M u = m1;
            u.swap_generators(a, b);
            res = u;
          },
          unchanged);
      break;
    }
    default: {
      bool lt = false, gt = false, eq = false, ord = false;
      if(perform(
             op,
             [&] {
               lt = m1 < m2;
               gt = m1 > m2;
               eq = m1 == m2;
               ord = m1.is_ordered();
             },
             unchanged)) {
        int c = cmp(w1, w2);
        if(lt != (c < 0) || gt != (c > 0) || eq != (c == 0))
          fail("wrong-value", "comparison of monomials %s and %s", text(w1).c_str(), text(w2).c_str());
        bool o = true;
        for(std::size_t k = 1; k < w1.size(); ++k) o = o && cmp(w1[k - 1], w1[k]) <= 0;
        if(ord != o) fail("wrong-value", "is_ordered() of %s", text(w1).c_str());
        log_u64(u64(c + 1));
      }
      return;
    }
    }
    if(done && read_mono(res) != e)
      fail("wrong-value", "a monomial operation gives %s instead of %s", text(read_mono(res)).c_str(), text(e).c_str());
    unchanged();
  }

  template <class F> static X call(F&& f, typename C::Tup t) { return std::apply(std::forward<F>(f), std::move(t)); }

  // Conjugation of an expression some of whose coefficients are negligible
  void tiny(Op const&, int, int, int, std::false_type) {}
  void tiny(Op const& op, int i, int j, int var, std::true_type) {
    Poly got;
    S s = from_c<S>::make(std::ldexp(1.0, -32));
    bool ok = perform(
        op,
        [&] {
          got.clear();
          X t = (x[j] * s) * s;
          X u = var & 1 ? x[i] + t : t - x[i];
          X v = var & 2 ? conj(u) : u + lc::hc;
          Pause p;
          for(auto const& w : rde(v))
            if(std::abs(w.second) > 1e-11) got.push_back(w);
        },
        [&]() { others(-1, -1, "failed"); });
    if(!ok) return;
    check_canonical(got, what);
    Poly m = var & 1 ? mx[i] : m_scale(mx[i], -1);
    check_equal_action(got, var & 2 ? m_conj(m) : cat(m, m_conj(m), 1), plan.seed + u64(sh->cur_op), what);
    others(-1, -1, "completed");
  }
  void factory(Op const& op, Rng& r, int d) {
    int id = int(r.below(u64(n_idx)));
    Poly e;
    auto L = [&](int alg, int a, int mult) { return Letter{alg, id, a, mult}; };
    namespace si = lc::static_indices;
    switch(r.below(13)) {
#define FAC(NAME, ...)                                                                                \
  e = Poly{Term(Word{__VA_ARGS__}, 1.0)};                                                             \
  create(op, d, e, false, [&] {                                                                       \
    return call([](auto&&... q) { return si::NAME<S>(std::forward<decltype(q)>(q)...); }, idx(id)); \
  });                                                                                                 \
  break;
    case 0: FAC(c_dag, L(lc::fermion, 1, 0))
    case 1: FAC(c, L(lc::fermion, 0, 0))
    case 2: FAC(n, L(lc::fermion, 1, 0), L(lc::fermion, 0, 0))
    case 3: FAC(a_dag, L(lc::boson, 1, 0))
    case 4: FAC(a, L(lc::boson, 0, 0))
    case 5: FAC(S_p, L(lc::spin, 0, 2))
    case 6: FAC(S_m, L(lc::spin, 1, 2))
    case 7: FAC(S_z, L(lc::spin, 2, 2))
#undef FAC
#define FAC(NAME, ...)                                                                                   \
  e = Poly{Term(Word{__VA_ARGS__}, 1.0)};                                                                \
  create(op, d, e, false, [&] {                                                                          \
    return call([](auto&&... q) { return si::NAME<4, S>(std::forward<decltype(q)>(q)...); }, idx(id)); \
  });                                                                                                    \
  break;
    case 8: FAC(S_p, L(lc::spin, 0, 4))
    case 9: FAC(S_m, L(lc::spin, 1, 4))
    case 10: FAC(S_z, L(lc::spin, 2, 4))
#undef FAC
    default: { // variadic constructor of monomial
      Letter a = L(lc::fermion, int(r.below(2)), 0), b = L(lc::spin, int(r.below(3)), 3);
      cplx c = num_for(r, from_c<S>::real);
      S s = from_c<S>::make(c);
      auto t = idx(id);
      e = Poly{Term(Word{b, a}, c)};
      create(op, d, e, false, [&] { return X(s, mono2(a, b, t)); });
    }
    }
  }
  static typename C::Tup idx(int id) { return idx_make(id, static_cast<typename C::Tup*>(nullptr)); }
  template <typename... I> static std::tuple<I...> idx_make(int id, std::tuple<I...>*) { return Indices<I...>::make(id); }
  template <typename... I> static lc::monomial<I...> mono2(Letter a, Letter b, std::tuple<I...> const& t) {
    return lc::monomial<I...>(lc::generator_spin<I...>((b.mult - 1) / 2.0, lc::spin_component(b.a), t),
                              lc::generator_fermion<I...>(bool(a.a), t));
  }

  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
    others(-1, -1, "finally");
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {0, r.range(1, 4), int(r.below(7))};
  int n = size ? size : r.range(4, 24);
  // swarm: some operations are switched off in every run
  bool on[NCODES];
  for(int i = 0; i < NCODES; ++i) on[i] = r.chance(3, 4);
  on[MAKE] = on[ADD_EQ] = true;
  for(int i = 0; i < n; ++i) {
    Op o;
    do {
      o.code = int(r.below(NCODES));
      if(i < 3 || r.chance(1, 6)) o.code = r.chance(1, 2) ? RICH : r.chance(3, 4) ? MAKE : FACTORY;
      if(r.chance(1, 8)) o.code = r.chance(1, 2) ? ADD_EQ : MUL;
      if(i > 2 && r.chance(1, 6)) o.code = r.range(MIX_BIN, MIX_TRANSFORM);
    } while(!on[o.code] && o.code != FACTORY && o.code != RICH);
    for(int& a : o.a) a = int(r.below(1 << 15));
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Conf<Scal<0>, Scal<2>, UIdx> TheConf;
#define SIM_NAME "E0"
#elif SIM_CONF == 1
typedef Conf<Scal<1>, Scal<1>, std::string, int> TheConf;
#define SIM_NAME "E1"
#elif SIM_CONF == 2
typedef Conf<cplx, double, dyn_indices> TheConf;
#define SIM_NAME "E2"
#elif SIM_CONF == 3
typedef Conf<mpq_class, mpq_class, UIdx> TheConf;
#define SIM_NAME "E3"
#else
typedef Conf<boost::rational<long>, boost::rational<long>, int> TheConf;
#define SIM_NAME "E4"
#endif
void run(Plan const& p) {
  Run<TheConf> r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  char b[128];
  snprintf(b, sizeof b, "%s x%d x%d x%d", code_name[o.code % NCODES], o.a[0] % 4, o.a[1] % 4, o.a[2] % 4);
  return b;
}
} // namespace
SIM_SCENARIO(E, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_SCALAR | 1u << K_GEN | 1u << K_IDX | 1u << K_CB, describe)
} // namespace sim
