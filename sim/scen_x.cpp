// Scenario X: errors the library raises itself, and errors crossing several layers of
// library and user code. All of them are kept, and examined again after the objects
// they are about are gone.
#include "views.hpp"

#include <boost/rational.hpp>
#include <libcommute/scalars/boost_rational.hpp>
#include <gmpxx.h>
#include <libcommute/scalars/gmpxx.hpp>

namespace sim {
namespace {

enum Code {
  DUP_ADD, DUP_LIST, DUP_ARGS, NOT_FOUND, BIG_ADD, BIG_LIST, BIG_EXPR, NO_ALGEBRA, ES_FAIL, UNKNOWN, SP_INDEX, SP_BASIS,
  MAP_ACCESS, MAP_APPLY, SECTOR, MULTI, NUM_PROD, NUM_ACT, COPY, RETHROW, DROP, LINFUN, NCODES
};
const char* const code_name[NCODES] = {
  "add-duplicate", "list-with-duplicate", "arguments-with-duplicate", "missing-space", "add-oversized", "oversized-list",
  "oversized-expression", "missing-algebra", "no-elementary-space", "unknown-generator", "bad-subspace-query", "bad-subspace-basis",
  "access-outside-mapping", "result-outside-mapping", "missing-sector", "bad-multisector", "incompatible-product",
  "incompatible-action", "copy-error", "rethrow-error", "drop-error", "commutation-failure"};

enum EKind { E_EXISTS, E_NOTFOUND, E_BIG, E_ESFAIL, E_UNKNOWN, E_RANGE, E_RUNTIME };
const char* const ekind_name[] = {"elementary_space_exists", "elementary_space_not_found", "hilbert_space_too_big", "es_construction_failure",
                                  "unknown_generator", "out_of_range", "runtime_error"};

template <class S, typename... I> struct Run {
  typedef lc::hilbert_space<I...> HS;
  typedef lc::expression<S, I...> X;
  typedef lc::loperator<S, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Op_t;
  typedef lc::space_partition<HS> SP;
  typedef lc::elementary_space<I...> ES;
  typedef lc::sector_descriptor<HS> SDesc;
  typedef typename HS::elementary_space_exists Exists;
  typedef typename HS::elementary_space_not_found NotFound;
  typedef typename HS::hilbert_space_too_big TooBig;
  typedef lc::es_construction_failure<I...> EsFail;
  typedef lc::unknown_generator<I...> Unknown;
  enum { NH = 4, real = from_c<S>::real };

  // What an error has to look like
  struct Want {
    int kind = E_RUNTIME;
    std::vector<std::string> msg; // any of these (empty: anything)
    SD sd = SD{0, 0, 0};
    std::vector<Letter> letters;  // any of these
    int bits = 0;
  };
  struct Held {
    std::exception_ptr p;
    std::shared_ptr<std::exception> copy;
    Want w;
    std::string text;
  };

  Plan const& plan;
  MHS m0;
  HS hs0;
  X x0;
  Poly mx0;
  Held held[NH];
  const char* what = "";

  explicit Run(Plan const& pl) : plan(pl) {
    Rng r(pl.seed ^ u64(pl.cfg[0]) * 7919);
    int n = r.range(1, 4);
    for(int k = 0; k < n; ++k) {
      SD s = random_space(r, 4, 15, 5);
      MHS t = m0;
      t.insert(s);
      if(t.bits() <= 8) m0 = t;
    }
    if(m0.bits() == 0) m0.insert(SD{lc::fermion, 0, 2});
    for(auto const& s : m0.es) hs0.add(*make_es<I...>(s));
    for(int k = 0; k < 3; ++k) {
      Word w;
      w.push_back(letter_on(r, m0));
      w.push_back(letter_on(r, m0));
      x0 += X(from_c<S>::make(double(k + 1)), make_mono<I...>(w));
    }
    mx0 = read_expr(x0);
  }

  //------------------------------------------------------------ examining errors
  void examine(std::exception const& e, Want const& w, const char* when) const {
    auto wrong = [&](std::string const& got, std::string const& exp) {
      fail("wrong-error", "%s %s: the %s error says %s instead of %s", what, when, ekind_name[w.kind], got.c_str(), exp.c_str());
    };
    auto type = [&](bool ok) {
      if(!ok) fail("wrong-error", "%s %s: the error (%s) is not of type %s", what, when, e.what(), ekind_name[w.kind]);
    };
    std::string msg = e.what();
    switch(w.kind) {
    case E_EXISTS: {
      auto const* x = dynamic_cast<Exists const*>(&e);
      type(x);
      SD t = read_es(*x->elementary_space_ptr);
      if(!(t == w.sd)) wrong(text(t), text(w.sd));
      break;
    }
    case E_NOTFOUND: {
      auto const* x = dynamic_cast<NotFound const*>(&e);
      type(x);
      SD t = read_es(*x->elementary_space_ptr);
      if(!(t == w.sd)) wrong(text(t), text(w.sd));
      break;
    }
    case E_BIG: {
      auto const* x = dynamic_cast<TooBig const*>(&e);
      type(x);
      if(x->n_bits != w.bits) wrong(std::to_string(x->n_bits), std::to_string(w.bits));
      break;
    }
    case E_ESFAIL: {
      auto const* x = dynamic_cast<EsFail const*>(&e);
      type(x);
      generator(*x->generator_ptr, w, wrong, "Cannot construct elementary space associated with algebra generator ", "", msg);
      break;
    }
    case E_UNKNOWN: {
      auto const* x = dynamic_cast<Unknown const*>(&e);
      type(x);
      generator(*x->generator_ptr, w, wrong, "Action of generator ", " on a state vector is undefined", msg);
      break;
    }
    case E_RANGE: type(dynamic_cast<std::out_of_range const*>(&e)); break;
    default: type(dynamic_cast<std::runtime_error const*>(&e));
    }
    if(!w.msg.empty()) {
      bool ok = false;
      for(auto const& t : w.msg) ok = ok || t == msg;
      if(!ok) wrong("'" + msg + "'", "'" + w.msg[0] + "'");
    }
  }
  template <class G, class F>
  void generator(G const& gen, Want const& w, F&& wrong, std::string const& pre, std::string const& post, std::string const& msg) const {
    Letter l = read_gen(gen);
    bool ok = false;
    for(auto const& t : w.letters) ok = ok || t == l;
    if(!ok) wrong(text(l), text(w.letters[0]));
    std::string s = pre + gen.to_string() + post;
    if(s != msg) wrong("'" + msg + "'", "'" + s + "'");
  }
  void check(Held const& h, const char* when) const {
    quiet([&] {
      if(h.copy) {
        examine(*h.copy, h.w, when);
        if(h.text != h.copy->what()) fail("wrong-error", "%s %s: the message became '%s'", what, when, h.copy->what());
        return;
      }
      try {
        std::rethrow_exception(h.p);
      } catch(std::exception const& e) {
        examine(e, h.w, when);
        if(h.text != e.what()) fail("wrong-error", "%s %s: the message became '%s'", what, when, e.what());
      } catch(...) {
        fail("wrong-error", "%s %s: unknown exception", what, when);
      }
    });
  }
  void all(const char* when) {
    for(auto const& h : held)
      if(h.p || h.copy) check(h, when);
    quiet([&] {
      if(hs0.size() != m0.es.size() || hs0.dim() != m0.dim()) fail("object-changed", "%s %s: the Hilbert space changed", what, when);
      if(!same(read_expr(x0), mx0)) fail("object-changed", "%s %s: the expression changed", what, when);
    });
  }

  //------------------------------------------------------------ raising errors
  // Calls f somewhere deep inside another library call
  void inside(int w, Fn f) {
    bool letters = false;
    for(auto const& t : mx0) letters = letters || !t.first.empty();
    if(!letters && (w == 2 || w == 3)) w = 1;
    switch(w) {
    case 1:
      foreach(hs0, [&](lc::sv_index_type) { f(); });
      break;
    case 2:
      (void)transform(x0, [&](lc::monomial<I...> const&, S const& c) -> S {
        f();
        return c;
      });
      break;
    case 3: {
      auto factory = [&](lc::generator<I...> const& gen) -> std::unique_ptr<ES> {
        f();
        (void)gen;
        return nullptr;
      };
      HS q(x0, factory);
      break;
    }
    case 4:
      hs0.foreach_elementary_space([&](ES const&) { f(); });
      break;
    case 5: { // during the application of an operator
      UVec<S> src(hs0.vec_size()), dst(hs0.vec_size());
      {
        Pause p;
        src.d.emplace(m0.state(0), from_c<S>::make(1));
      }
      foreach(src, [&](lc::sv_index_type, S const&) { f(); });
      break;
    }
    default: f();
    }
  }
  // f must raise the error w. Sources are destroyed by `gone` before the error is examined.
  template <class F, class G, class H> void expect(Op const& op, int d, Want const& w, F&& f, G&& intact, H&& gone, bool absorb = false) {
    std::exception_ptr err;
    int in = op.a[4] % 12;
    if(in > 5) in = 0;
    auto body = [&] {
      err = nullptr;
      try {
        if(in)
          inside(in, [&] { f(); });
        else
          f();
      } catch(Injected const&) {
        throw;
      } catch(std::bad_alloc const&) {
        throw;
      } catch(std::exception const&) {
        err = std::current_exception();
      }
    };
    auto after = [&] {
      intact();
      all("failed");
    };
    if(!perform(op, body, after, absorb)) {
      gone();
      return;
    }
    intact();
    gone();
    if(!err) fail("missing-error", "%s: no error was raised, expected %s", what, ekind_name[w.kind]);
    if(in) probe(80);
    Held h;
    h.w = w;
    h.p = err;
    quiet([&] {
      try {
        std::rethrow_exception(err);
      } catch(std::exception const& e) {
        h.text = e.what();
      }
    });
    check(h, "raised an error");
    log_str(h.w.kind == E_RANGE ? std::string("range") : h.text);
    if(g.verbose) trace("  %s: %s", ekind_name[w.kind], h.text.c_str());
    held[d] = h;
  }
  template <class F> void expect(Op const& op, int d, Want const& w, F&& f) {
    expect(op, d, w, f, [] {}, [] {});
  }

  // The expression or vector types with scalars that do not know all numbers
  template <class T> static T num(int x) { return T(x); }
  template <class T> void num_prod(Op const& op, int d, Rng& r, const char* name) {
    typedef lc::expression<T, I...> E;
    int idx = int(r.below(4)), other = int(r.below(4));
    static const int pairs[3][2] = {{2, 0}, {2, 1}, {1, 0}}; // Sz S+, Sz S-, S- S+
    int q = int(r.below(3));
    std::string bad = q == 1 ? "-1/2" : "1/2";
    std::unique_ptr<E> a, b;
    bool odd = r.chance(1, 2);
    lc::var_number vn(0);
    if(odd) {
      int num = r.chance(1, 2) ? r.range(-5, 5) : r.range(-2000000000, 2000000000), den = r.chance(1, 2) ? r.range(1, 9) : r.range(1, 2000000000);
      if(num == 0) num = 6;
      if(r.chance(2, 3)) {
        vn = lc::var_number(num, den);
        bad = std::to_string(num) + "/" + std::to_string(den);
      } else {
        static const double xs[] = {0.5, -1.25e-200, 3.5, 2.5e-20, -0.75};
        static const char* const ts[] = {"0.5", "-1.25e-200", "3.5", "2.5e-20", "-0.75"};
        int k = int(r.below(5));
        vn = lc::var_number(xs[k]);
        bad = ts[k];
      }
    }
    quiet([&] {
      Word u, v;
      if(odd) {
        a.reset(new E(num<T>(2), lc::monomial<I...>(std::vector<std::shared_ptr<const lc::generator<I...>>>(1, std::make_shared<Odd>(vn)))));
        b.reset(new E(num<T>(3), make_mono<I...>(Word{Letter{TRI, 1, 0, 0}})));
        return;
      }
      if(r.chance(1, 2)) u.push_back(Letter{lc::fermion, other, int(r.below(2)), 0});
      u.push_back(Letter{lc::spin, idx, pairs[q][0], 2});
      v.push_back(Letter{lc::spin, idx, pairs[q][1], 2});
      if(r.chance(1, 2)) v.push_back(Letter{TRI, other, 0, 0});
      a.reset(new E(num<T>(r.range(1, 3)), make_mono<I...>(u)));
      b.reset(new E(num<T>(r.range(1, 3)), make_mono<I...>(v)));
      if(r.chance(1, 2)) *a += E(num<T>(2), make_mono<I...>(Word{Letter{lc::boson, other, 1, 0}}));
    });
    E a0(*a), b0(*b);
    Want w;
    w.msg.push_back("Cannot convert the variant number " + bad + " to " + name);
    auto intact = [&] {
      quiet([&] {
        if(!(*a == a0) || !(*b == b0)) fail("operand-changed", "%s: a factor changed", what);
      });
    };
    int form = int(r.below(odd ? 2 : 3));
    expect(
        op, d, w,
        [&] {
          if(form == 0)
            (void)(*a * *b);
          else if(form == 1)
            *a *= *b;
          else {
            // the monomial is brought into canonical form
            Word u = read_mono(a0.get_monomials().rbegin()->first);
            Word v = read_mono(b0.get_monomials().rbegin()->first);
            std::vector<std::shared_ptr<const lc::generator<I...>>> gs;
            E p(num<T>(1), make_mono<I...>(Word()));
            for(auto const& l : u) gs.push_back(make_gen<I...>(l));
            for(auto const& l : v) gs.push_back(make_gen<I...>(l));
            for(auto const& s : gs) p *= E(num<T>(1), lc::monomial<I...>(std::vector<std::shared_ptr<const lc::generator<I...>>>(1, s)));
          }
        },
        intact,
        [&] {
          a.reset();
          b.reset();
        });
    probe(81);
  }
  template <class T> void num_act(Op const& op, int d, Rng& r, const char* name) {
    typedef lc::expression<T, I...> E;
    typedef lc::loperator<T, lc::fermion, lc::boson, lc::spin> L;
    HS hs;
    MHS m;
    Letter l;
    u64 st = 0;
    double v;
    quiet([&] {
      m.insert(SD{lc::fermion, 1, 2});
      if(r.chance(1, 2)) {
        int dim = r.range(3, 8), n;
        do n = r.range(0, dim - 2); while(n == 0 || n == 3);
        m.insert(SD{lc::boson, 2, dim});
        l = Letter{lc::boson, 2, 1, 0};
        st = u64(n) << 1 | r.below(2);
        v = std::sqrt(double(n + 1));
      } else {
        m.insert(SD{lc::spin, 2, 2});
        l = Letter{lc::spin, 2, 2, 2};
        st = r.below(4);
        v = (st >> 1) ? 0.5 : -0.5;
      }
    });
    Want w;
    w.msg.push_back("Cannot convert " + std::to_string(v) + " to " + name);
    std::unique_ptr<L> o;
    quiet([&] {
      for(auto const& s : m.es) hs.add(*make_es<I...>(s));
      o.reset(new L(E(num<T>(1), make_mono<I...>(Word{l})), hs));
    });
    std::vector<T> src(hs.vec_size(), num<T>(0)), dst(hs.vec_size(), num<T>(0));
    src[st] = num<T>(2);
    expect(
        op, d, w, [&] { (*o)(src, dst); },
        [&] {
          for(std::size_t k = 0; k < src.size(); ++k)
            if(src[k] != num<T>(k == st ? 2 : 0)) fail("operand-changed", "%s: the state changed", what);
        },
        [&] { o.reset(); });
    probe(81);
  }

  static std::string indices_text(int idx) { return lc::tuple_to_string(Indices<I...>::make(idx)); }

  void step(Op const& op) {
    what = code_name[op.code];
    int d = op.a[0] % NH, j = op.a[1] % NH, var = op.a[5];
    Rng r(u64(op.a[2]) * 77777 + u64(op.a[3]));
    if(g.verbose) trace("op %d %s", sh->cur_op, what);
    auto nothing = [] {};
    switch(op.code) {
    case DUP_ADD: {
      MHS m = m0;
      std::unique_ptr<HS> hs(new HS(quiet([&] { return HS(hs0); })));
      SD s = m.es[std::size_t(r.below(m.es.size()))];
      if(s.alg == lc::boson) s.par = r.range(1, 9); // the same one, whatever its dimension
      auto es = quiet([&] { return make_es<I...>(s); });
      Want w;
      w.kind = E_EXISTS;
      w.sd = s;
      w.msg.push_back("Elementary space already exists");
      expect(
          op, d, w, [&] { hs->add(*es); }, [&] { check_hs(*hs, m, what); },
          [&] {
            es.reset();
            hs.reset();
          });
      break;
    }
    case DUP_LIST:
    case DUP_ARGS: {
      std::vector<std::unique_ptr<ES>> v;
      std::vector<ES*> p;
      SD s;
      quiet([&] {
        for(auto const& q : m0.es) v.push_back(make_es<I...>(q));
        s = m0.es[std::size_t(r.below(m0.es.size()))];
        if(s.alg == lc::boson) s.par = r.range(1, 9);
        v.push_back(make_es<I...>(s));
        for(auto const& q : v) p.push_back(q.get());
      });
      Want w;
      w.kind = E_EXISTS;
      w.sd = s;
      w.msg.push_back("Elementary space already exists");
      if(op.code == DUP_LIST)
        expect(op, d, w, [&] { HS q(p); }, nothing, [&] { v.clear(); });
      else {
        auto a1 = Indices<I...>::make(int(r.below(4))), a2 = Indices<I...>::make(4);
        w.sd = SD{lc::fermion, index_id(a1), 2};
        auto e1 = std::unique_ptr<lc::elementary_space_fermion<I...>>(new lc::elementary_space_fermion<I...>(a1));
        auto e2 = std::unique_ptr<lc::elementary_space_boson<I...>>(new lc::elementary_space_boson<I...>(3, a2));
        expect(
            op, d, w, [&] { HS q(*e1, *e2, *e1); }, nothing,
            [&] {
              e1.reset();
              e2.reset();
            });
      }
      break;
    }
    case NOT_FOUND: {
      SD s;
      do s = random_space(r, N_IDX, 15, 5);
      while(m0.find(s) >= 0);
      auto es = quiet([&] { return make_es<I...>(s); });
      auto hs = quiet([&] { return std::unique_ptr<HS>(new HS(hs0)); });
      Want w;
      w.kind = E_NOTFOUND;
      w.sd = s;
      w.msg.push_back("Elementary space not found");
      int q = int(r.below(4));
      expect(
          op, d, w,
          [&] {
            if(q == 0)
              (void)hs->index(*es);
            else if(q == 1)
              (void)hs->dim(*es);
            else if(q == 2)
              (void)hs->bit_range(*es);
            else
              (void)hs->basis_state_index(*es, 0);
          },
          nothing,
          [&] {
            es.reset();
            hs.reset();
          });
      break;
    }
    case BIG_ADD:
    case BIG_LIST: {
      MHS m = m0;
      int target = 62 + int(r.below(3));
      while(m.bits() < target - 14) {
        SD s{lc::boson, 0, 1L << r.range(5, 14)};
        for(s.idx = 0; m.find(s) >= 0;) ++s.idx;
        if(s.idx >= 2 * N_IDX) break;
        m.insert(s);
      }
      SD last{lc::spin, 3, 2};
      while(m.find(last) >= 0) ++last.par;
      int room = 63 - m.bits(), nb = room + 1 + int(r.below(12));
      if(nb < 1) nb = 1;
      SD s{lc::boson, 0, r.chance(1, 2) ? 1L << nb : (1L << (nb - 1)) + 1};
      for(s.idx = 0; m.find(s) >= 0;) ++s.idx;
      if(s.idx >= 2 * N_IDX || nb > 40) return;
      if(m.bits() + n_bits(s) <= 63) return;
      Want w;
      w.kind = E_BIG;
      w.bits = m.bits() + n_bits(s);
      w.msg.push_back("Hilbert space size is not representable by a 64-bit integer (n_bits = " + std::to_string(w.bits) + ")");
      auto es = quiet([&] { return make_es<I...>(s); });
      std::vector<std::unique_ptr<ES>> v;
      std::vector<ES*> p;
      quiet([&] {
        for(auto const& q : m.es) v.push_back(make_es<I...>(q));
        for(auto const& q : v) p.push_back(q.get());
      });
      if(op.code == BIG_ADD) {
        std::unique_ptr<HS> hs = quiet([&] { return std::unique_ptr<HS>(new HS(p)); });
        expect(
            op, d, w, [&] { hs->add(*es); }, [&] { check_hs(*hs, m, what, 4); },
            [&] {
              hs.reset();
              es.reset();
            });
      } else {
        p.insert(p.begin() + long(r.below(p.size() + 1)), es.get());
        expect(
            op, d, w, [&] { HS q(p); }, nothing,
            [&] {
              v.clear();
              es.reset();
            });
      }
      break;
    }
    case BIG_EXPR: {
      std::unique_ptr<X> x(new X);
      int cnt = r.range(5, N_IDX), nb = r.range(13, 20);
      quiet([&] {
        for(int k = 0; k < cnt; ++k) *x += X(from_c<S>::make(1), make_mono<I...>(Word{Letter{lc::boson, k, int(r.below(2)), 0}}));
      });
      if(cnt * nb <= 63) return;
      Want w;
      w.kind = E_BIG;
      w.bits = cnt * nb;
      w.msg.push_back("Hilbert space size is not representable by a 64-bit integer (n_bits = " + std::to_string(w.bits) + ")");
      long dim = r.chance(1, 2) ? 1L << nb : (1L << (nb - 1)) + 1 + long(r.below(5));
      expect(
          op, d, w,
          [&] {
            if(var & 1)
              (void)lc::make_hilbert_space(*x, lc::boson_es_constructor(lc::sv_index_type(dim)));
            else
              HS q(*x, lc::boson_es_constructor(lc::sv_index_type(dim)));
          },
          nothing, [&] { x.reset(); });
      break;
    }
    case NO_ALGEBRA: {
      int alg = r.range(-5, 8);
      for(auto const& s : m0.es)
        if(s.alg == alg) return;
      auto hs = quiet([&] { return std::unique_ptr<HS>(new HS(hs0)); });
      Want w;
      w.msg.push_back("No elementary spaces with algebra ID " + std::to_string(alg));
      expect(op, d, w, [&] { (void)hs->algebra_bit_range(alg); }, nothing, [&] { hs.reset(); });
      break;
    }
    case ES_FAIL: {
      std::unique_ptr<X> x(new X);
      int kind = int(r.below(4));
      Want w;
      w.kind = E_ESFAIL;
      quiet([&] {
        int n = r.range(1, 5);
        int bads = r.range(1, 2);
        for(int k = 0; k < n; ++k) {
          Word u;
          u.push_back(Letter{lc::fermion, int(r.below(4)), int(r.below(2)), 0});
          if(r.chance(1, 2)) u.push_back(Letter{lc::spin, int(r.below(4)), int(r.below(2)), 2});
          *x += X(from_c<S>::make(double(k + 1)), make_mono<I...>(u));
        }
        for(int k = 0; k < bads; ++k) {
          Letter l;
          int idx = int(r.below(4));
          switch(kind) {
          case 0: // default: fermions and spins
            l = r.chance(1, 2) ? Letter{lc::boson, idx, int(r.below(2)), 0} : Letter{r.range(1, 4), idx, 0, 0};
            break;
          case 1: l = Letter{r.range(1, 4), idx, 0, 0}; break; // bosons, too
          case 2: l = Letter{WITT, idx, r.range(-1, 2), 0}; break;
          default: l = Letter{r.chance(1, 2) ? WITT : QUAT, idx, r.range(0, 2), 0};
          }
          Word u;
          if(r.chance(1, 2)) u.push_back(Letter{lc::fermion, int(r.below(4)), 1, 0});
          u.push_back(l);
          if(k && l == w.letters[0]) continue;
          w.letters.push_back(l);
          *x += X(from_c<S>::make(2), make_mono<I...>(u));
        }
      });
      expect(
          op, d, w,
          [&] {
            if(kind == 0) {
              if(var & 1)
                (void)lc::make_hilbert_space(*x);
              else
                HS q(*x);
            } else if(kind == 1)
              HS q(*x, lc::boson_es_constructor(4));
            else if(kind == 2)
              HS q(*x, lc::es_constructor<lc::fermion, lc::boson, lc::spin, 1, 3, 4>(3));
            else
              HS q(*x, Factory<I...>{3, 99});
          },
          nothing, [&] { x.reset(); });
      break;
    }
    case UNKNOWN: {
      std::unique_ptr<X> x;
      std::unique_ptr<HS> hs;
      Want w;
      w.kind = E_UNKNOWN;
      bool few = var & 1;
      quiet([&] {
        x.reset(new X(x0));
        hs.reset(new HS(hs0));
        for(int k = 0; k < 2; ++k) {
          Letter l;
          switch(r.below(few ? 5 : 6)) {
          case 0: l = Letter{lc::fermion, int(r.below(N_IDX)), int(r.below(2)), 0}; break;
          case 1: l = Letter{lc::boson, int(r.below(N_IDX)), int(r.below(2)), 0}; break;
          case 2: l = Letter{lc::spin, int(r.below(N_IDX)), int(r.below(3)), r.range(2, 5)}; break;
          case 3: l = Letter{WITT, int(r.below(N_IDX)), 1, 0}; break;
          case 4: l = Letter{QUAT, int(r.below(N_IDX)), 1, 0}; break;
          default: l = Letter{r.chance(1, 2) ? TRI : CYC, int(r.below(N_IDX)), 0, 0};
          }
          if(space_for(l, m0) >= 0) continue;
          Word u;
          if(r.chance(1, 2)) u.push_back(letter_on(r, m0));
          u.push_back(l);
          std::size_t before = x->size();
          *x += X(from_c<S>::make(7), make_mono<I...>(u));
          if(x->size() > before) w.letters.push_back(l);
        }
        // all generators that are really unknown
        w.letters.clear();
        for(auto const& t : read_expr(*x))
          for(auto const& l : t.first)
            if(space_for(l, m0) < 0 || (few && l.alg >= 0)) w.letters.push_back(l);
      });
      if(w.letters.empty()) return;
      typedef lc::loperator<S, lc::fermion, lc::boson, lc::spin> Few;
      typedef lc::parametric_loperator<S, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Par;
      int kind = few ? 0 : 1 + int(r.below(2));
      expect(
          op, d, w,
          [&] {
            if(kind == 0)
              Few o(*x, *hs);
            else if(kind == 1)
              Op_t o(*x, *hs);
            else
              Par o(*x, *hs);
          },
          nothing,
          [&] {
            x.reset();
            hs.reset();
          });
      break;
    }
    case SP_INDEX:
    case SP_BASIS: {
      std::unique_ptr<SP> sp;
      std::unique_ptr<HS> hs;
      quiet([&] {
        hs.reset(new HS(hs0));
        Op_t o(x0, *hs);
        sp.reset(new SP(lc::make_space_partition(o, *hs)));
      });
      Want w;
      u64 n;
      if(op.code == SP_INDEX) {
        w.kind = E_RANGE;
        n = r.chance(1, 2) ? hs->vec_size() + r.below(5) : r.next();
        if(m0.is_state(n)) return;
        w.msg.push_back("Unexpected basis state index " + std::to_string(n));
      } else {
        n = sp->n_subspaces() + (r.chance(1, 2) ? 0 : r.next() >> 8);
        w.msg.push_back("Wrong subspace index " + std::to_string(n));
      }
      expect(
          op, d, w,
          [&] {
            if(op.code == SP_INDEX)
              (void)(*sp)[n];
            else
              (void)sp->subspace_basis(n);
          },
          nothing,
          [&] {
            sp.reset();
            hs.reset();
          });
      break;
    }
    case MAP_ACCESS:
    case MAP_APPLY: {
      std::unique_ptr<lc::basis_mapper> mp;
      std::unique_ptr<Op_t> o;
      std::vector<lc::sv_index_type> l;
      u64 miss = 0;
      quiet([&] {
        o.reset(new Op_t(x0, hs0));
        if(op.code == MAP_ACCESS) {
          for(u64 k = 0; k < m0.dim() && k < 9; ++k)
            if(r.chance(2, 3)) l.push_back(m0.state(k));
          do miss = r.chance(1, 2) ? m0.state(r.below(m0.dim())) : r.next();
          while(std::count(l.begin(), l.end(), miss));
        }
      });
      Want w;
      w.kind = E_RANGE;
      if(op.code == MAP_ACCESS) {
        quiet([&] { mp.reset(new lc::basis_mapper(l)); });
        std::vector<S> st;
        for(std::size_t k = 0; k < l.size(); ++k) st.push_back(from_c<S>::make(double(k + 1)));
        int q = int(r.below(3));
        S one = from_c<S>::make(r.below(4) ? 1 : 0); // also an update that would not change anything
        expect(
            op, d, w,
            [&] {
              if(q == 0) {
                auto v = mp->make_view(st);
                update_add_element(v, miss, one);
              } else if(q == 1) {
                auto v = mp->make_view(st);
                (void)get_element(v, miss);
              } else {
                auto v = mp->make_const_view(st);
                (void)get_element(v, miss);
              }
            },
            [&] {
              for(std::size_t k = 0; k < l.size(); ++k)
                if(val(st[k]) != cplx(double(k + 1))) fail("operand-changed", "%s: an amplitude changed", what);
            },
            [&] { mp.reset(); });
      } else {
        // no image of the source state is in the mapping
        u64 s0 = 0;
        Amp img;
        for(u64 k = 0; k < m0.dim(); ++k) {
          s0 = m0.state((k + r.below(m0.dim())) % m0.dim());
          if(fragile(mx0, m0, s0)) continue;
          img = act(mx0, m0, s0);
          if(!img.empty()) break;
        }
        if(img.empty()) return;
        for(u64 k = 0; k < m0.dim(); ++k)
          if(!img.count(m0.state(k))) l.push_back(m0.state(k));
        quiet([&] { mp.reset(new lc::basis_mapper(l)); });
        std::vector<S> st(l.size(), from_c<S>::make(0));
        UVec<S> src(hs0.vec_size());
        src.d.emplace(s0, from_c<S>::make(1));
        expect(
            op, d, w,
            [&] {
              auto v = mp->make_view(st);
              (*o)(src, v);
            },
            [&] {
              if(src.d.size() != 1 || val(src.d.begin()->second) != 1.0) fail("operand-changed", "%s: the source changed", what);
            },
            [&] {
              o.reset();
              mp.reset();
            });
      }
      probe(82);
      break;
    }
    case SECTOR:
    case MULTI: {
      MHS m;
      int M = r.range(1, 5);
      for(int k = 0; k < M; ++k) m.insert(SD{lc::fermion, k, 2});
      int extra = int(r.below(3));
      if(extra == 1) m.insert(SD{lc::spin, 1, 2});
      if(extra == 2) m.insert(SD{lc::boson, 1, 3}); // sparse
      std::unique_ptr<HS> hs(new HS);
      quiet([&] {
        for(auto const& s : m.es) hs->add(*make_es<I...>(s));
      });
      std::vector<S> st(4, from_c<S>::make(1));
      Want w;
      auto gone = [&] { hs.reset(); };
      if(op.code == SECTOR) {
        unsigned N = extra == 2 ? unsigned(r.below(u64(M) + 1)) : unsigned(M) + 1 + unsigned(r.below(4));
        int q = int(r.below(extra == 2 ? 3 : 2));
        static const char* const fn[] = {"n_fermion_sector_basis_states", "n_fermion_sector_view", "n_fermion_sector_size"};
        w.msg.push_back(extra == 2 ? fn[q] + std::string(": sparse Hilbert spaces are not supported")
                                   : "Sector with " + std::to_string(N) + " fermions does not exist (there are " + std::to_string(M) + " fermionic modes in it)");
        expect(
            op, d, w,
            [&] {
              if(q == 0)
                (void)lc::n_fermion_sector_basis_states(*hs, N);
              else if(q == 1) {
                if(var & 1)
                  (void)lc::make_nfs_view(st, *hs, N);
                else
                  (void)lc::make_const_nfs_view(st, *hs, N);
              } else
                (void)lc::n_fermion_sector_size(*hs, N);
            },
            nothing, gone);
        break;
      }
      std::vector<SDesc> sd;
      int wrong = int(r.below(3)), q = int(r.below(3));
      quiet([&] {
        int n = r.range(1, 2);
        sd.resize(std::size_t(n));
        for(int k = 0; k < M; ++k) sd[std::size_t(k % n)].indices.insert(Indices<I...>::make(k));
        for(auto& s : sd) s.N = unsigned(r.below(s.indices.size() + 1));
        std::size_t t = std::size_t(r.below(u64(n)));
        if(extra == 2) {
          static const char* const fn[] = {"n_fermion_multisector_basis_states", "n_fermion_multisector_view", "n_fermion_multisector_size"};
          w.msg.push_back(fn[q] + std::string(": sparse Hilbert spaces are not supported"));
        } else if(wrong == 0) {
          int cnt = r.range(1, 2);
          for(int k = 0; k < cnt; ++k) {
            int absent = M + int(r.below(4));
            sd[t].indices.insert(Indices<I...>::make(absent));
            w.msg.push_back("Fermionic elementary space with indices " + indices_text(absent) + " is not part of this Hilbert space");
          }
        } else if(wrong == 1) {
          SDesc x;
          x.indices.insert(Indices<I...>::make(int(r.below(u64(M)))));
          x.N = 1;
          sd.push_back(x);
          w.msg.push_back("Some of the sectors overlap");
        } else {
          if(q == 2) q = 0; // sizes of missing sectors are zero
          if(sd[t].indices.empty()) t = 0;
          sd[t].N = unsigned(sd[t].indices.size()) + 1 + unsigned(r.below(3));
          w.msg.push_back("Sector with " + std::to_string(sd[t].N) + " fermions does not exist (there are " + std::to_string(sd[t].indices.size()) +
                          " fermionic modes in it)");
        }
      });
      expect(
          op, d, w,
          [&] {
            if(q == 0)
              (void)lc::n_fermion_multisector_basis_states(*hs, sd);
            else if(q == 1) {
              if(var & 1)
                (void)lc::make_nfms_view(st, *hs, sd);
              else
                (void)lc::make_const_nfms_view(st, *hs, sd);
            } else
              (void)lc::n_fermion_multisector_size(*hs, sd);
          },
          nothing,
          [&] {
            hs.reset();
            sd.clear();
          },
          true);
      break;
    }
    case NUM_PROD:
      switch(var % 4) {
      case 0: num_prod<int>(op, d, r, "an integral ScalarType"); break;
      case 1: num_prod<long>(op, d, r, "an integral ScalarType"); break;
      case 2: num_prod<mpz_class>(op, d, r, "mpz_class"); break;
      default: num_prod<int>(op, d, r, "an integral ScalarType");
      }
      break;
    case NUM_ACT:
      switch(var % 4) {
      case 0: num_act<int>(op, d, r, "an integral ScalarType"); break;
      case 1: num_act<boost::rational<int>>(op, d, r, "boost::rational"); break;
      case 2: num_act<mpz_class>(op, d, r, "mpz_class"); break;
      default: num_act<mpq_class>(op, d, r, "mpq_class");
      }
      break;
    case COPY: {
      Held& h = held[j];
      if(!h.p || d == j) return;
      std::shared_ptr<std::exception> c;
      auto f = [&] {
        c.reset();
        std::exception const* e = nullptr;
        try {
          std::rethrow_exception(h.p);
        } catch(EsFail const& x) {
          Pause p;
          c = std::make_shared<EsFail>(x);
        } catch(Unknown const& x) {
          Pause p;
          c = std::make_shared<Unknown>(x);
        } catch(TooBig const& x) {
          Pause p;
          c = std::make_shared<TooBig>(x);
        } catch(Exists const&) {
        } catch(NotFound const&) {
        } catch(std::out_of_range const& x) {
          Pause p;
          c = std::make_shared<std::out_of_range>(x);
        } catch(std::runtime_error const& x) {
          Pause p;
          c = std::make_shared<std::runtime_error>(x);
        }
        (void)e;
      };
      attempt(nullptr, f);
      if(!c) return;
      held[d] = Held();
      held[d].copy = c;
      held[d].w = h.w;
      held[d].text = h.text;
      if(var & 1) h = Held();
      probe(83);
      break;
    }
    case RETHROW: { // out of another library call
      Held& h = held[j];
      if(!h.p) return;
      int in = 1 + int(r.below(5));
      Want w = h.w;
      std::string t = h.text;
      std::exception_ptr err;
      auto body = [&] {
        err = nullptr;
        try {
          inside(in, [&] { std::rethrow_exception(h.p); });
        } catch(Injected const&) {
          throw;
        } catch(std::bad_alloc const&) {
          throw;
        } catch(std::exception const&) {
          err = std::current_exception();
        }
      };
      if(!perform(op, body, [&] { all("failed"); })) return;
      if(!err) fail("swallowed-error", "%s: the error disappeared", what);
      Held n;
      n.p = err;
      n.w = w;
      n.text = t;
      check(n, "came out of another call");
      held[d] = n;
      break;
    }
    case DROP: held[d] = Held(); break;
    case LINFUN: { // the rule of a generator raises an error of the library's
      if(m0.es.empty()) return;
      SD s;
      do s = random_space(r, N_IDX, 15, 5);
      while(m0.find(s) >= 0);
      auto es = quiet([&] { return make_es<I...>(s); });
      Want w;
      w.kind = E_NOTFOUND;
      w.sd = s;
      w.msg.push_back("Elementary space not found");
      X a, b;
      quiet([&] {
        a = X(from_c<S>::make(2), make_mono<I...>(Word{Letter{lc::fermion, 0, 1, 0}, Letter{TRI, 1, 5, 0}}));
        b = X(from_c<S>::make(3), lc::monomial<I...>(std::vector<std::shared_ptr<const lc::generator<I...>>>(
                                      1, std::make_shared<Rule>(*this, *es))));
      });
      Poly pa = read_expr(a);
      int form = int(r.below(3));
      active = true;
      expect(
          op, d, w,
          [&] {
            if(form == 0)
              (void)(b * a);
            else if(form == 1)
              a *= b;
            else
              (void)(a * b);
          },
          [&] {
            if(!same(read_expr(a), pa)) fail("operand-changed", "%s: a factor changed", what);
          },
          [&] { es.reset(); });
      active = false;
      probe(84);
      break;
    }
    }
    all("completed");
  }
  // A generator of the same algebra as TRI that queries a Hilbert space when commuted
  bool active = false;
  struct Rule : UGen<I...> {
    Run const& run;
    ES const& es;
    Rule(Run const& run, ES const& es) : UGen<I...>(TRI, 3, Indices<I...>::make(1)), run(run), es(es) {}
    lc::var_number swap_with(lc::generator<I...> const&, typename UGen<I...>::lin_t&) const override {
      (void)run.hs0.index(es);
      return 1;
    }
    bool simplify_prod(lc::generator<I...> const&, typename UGen<I...>::lin_t&) const override {
      (void)run.hs0.index(es);
      return false;
    }
  };

  // A generator whose commutation rule has any constant
  struct Odd : UGen<I...> {
    lc::var_number c;
    explicit Odd(lc::var_number const& c) : UGen<I...>(TRI, 3, Indices<I...>::make(1)), c(c) {}
    lc::var_number swap_with(lc::generator<I...> const&, typename UGen<I...>::lin_t& f) const override {
      point(K_GEN);
      f.set(c);
      return 1;
    }
  };

  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {int(r.below(1000))};
  int n = size ? size : r.range(4, 18);
  for(int i = 0; i < n; ++i) {
    Op o;
    o.code = int(r.below(NCODES));
    for(int& a : o.a) a = int(r.below(1 << 15));
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<Scal<0>, UIdx> TheRun;
#define SIM_NAME "X0"
#elif SIM_CONF == 1
typedef Run<double, std::string, int> TheRun;
#define SIM_NAME "X1"
#else
typedef Run<cplx, dyn_indices> TheRun;
#define SIM_NAME "X2"
#endif
void run(Plan const& p) {
  sh->trivial_ok = 1;
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  return std::string(code_name[o.code % NCODES]) + " error " + std::to_string(o.a[0] % 4) + (o.a[4] % 12 >= 1 && o.a[4] % 12 <= 5 ? " inside another call" : "");
}
} // namespace
SIM_SCENARIO(X, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_GEN | 1u << K_SCALAR | 1u << K_IDX | 1u << K_ES | 1u << K_ESC | 1u << K_VEC, describe)
} // namespace sim
