// Scenario A: threads use common objects of all kinds at the same time, by
// operations that do not modify them. Every thread must get what it gets when
// it runs alone, and the objects must be the same afterwards.
#include "views.hpp"
#include "mt.hpp"

#include <sstream>

namespace sim {
namespace {

enum Code { SUM, PRODUCT, SCALE, COMPARE, ITERATE, PRINT, COPY, CHANGE_COPY, CONVERT, TRANSFORM, MONOMIAL, GENERATOR, SPACE, NEW_SPACE,
            NEW_OP, APPLY, PARAM, COPY_OP, PARTITION, NEW_PARTITION, MERGE_COPY, MAPPER, NEW_MAPPER, VIEW, VIEW_OP, SECTOR, ERROR, ESPACE,
            SPARSE, LINEAR, KEEP, BIG, BIG_VIEW, NCODES };
const char* const code_name[NCODES] = {
    "sum", "product", "scale", "compare", "iterate", "print", "copy", "change-copy", "convert", "transform", "monomial", "generator",
    "space-queries", "new-space", "new-operator", "apply", "apply-parametric", "copy-operator", "partition-queries", "new-partition",
    "merge-copy", "mapper", "new-mapper", "view", "apply-to-view", "sector", "error", "elementary-space", "sparse-vector",
    "linear-function", "keep", "big-space", "big-view"};

template <class S, class R, typename... I> struct Run {
  typedef lc::expression<S, I...> X;
  typedef lc::expression<R, I...> XR;
  typedef lc::expression<PCoef<S>, I...> XP;
  typedef lc::monomial<I...> M;
  typedef lc::generator<I...> G;
  typedef std::shared_ptr<const G> GP;
  typedef lc::linear_function<GP> LF;
  typedef lc::elementary_space<I...> ES;
  typedef lc::hilbert_space<I...> HS;
  typedef lc::parametric_loperator<PCoef<S>, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Par_t;
  typedef LOp<S> Op_t;
  typedef lc::space_partition<HS> SP;
  typedef lc::sparse_state_vector<S> SV;
  typedef VSpace<S, I...> VS;
  typedef lc::sector_descriptor<HS> SDesc;
  typedef lc::es_constructor<lc::fermion, lc::boson, lc::spin, 1, 3, 4> ESC;
  enum { real = from_c<S>::real, NX = 4, NM = 4, NG = 6, NE = 4, NH = 2, NO = 3, NV = 5, NB = 2, NW = 3 };

  struct Shared_ {
    X x[NX];
    XR xr;
    XP xp[NH];
    M m[NM];
    GP gen[NG];
    LF lf[2];
    std::unique_ptr<ES> es[NE];
    HS hs[NH];
    MHS mh[NH];
    std::unique_ptr<Op_t> op[NO]; // over hs[0], hs[0], hs[1]
    std::unique_ptr<Par_t> par[NH];
    std::unique_ptr<SP> sp;
    std::vector<Op_t> ops;
    std::unique_ptr<lc::basis_mapper> bm[2];
    UVec<S> u[NH] = {UVec<S>(1), UVec<S>(1)};
    std::unique_ptr<SV> sv[NH];
    std::vector<S> dense;
    std::unique_ptr<VS> vs;
    typename VS::Proto proto[NV];
    typename VS::Ptr vec[NV];
    std::vector<SDesc> sectors;
    std::vector<typename VS::MaskN> masks;
    std::unique_ptr<Op_t> vop; // over vs->hs
    HS bhs; // huge
    MHS bm_;
    std::unique_ptr<Op_t> bop[NB];
    std::unique_ptr<Par_t> bpar;
    std::unique_ptr<SV> bsv;
    UVec<S> bu = UVec<S>(1);
    std::unique_ptr<VS> bvs; // huge, or with many fermions
    typename VS::Proto bproto[NW];
    typename VS::Ptr bvec[NW];
    std::vector<SDesc> bsectors;
    std::vector<typename VS::MaskN> bmasks;
    ESC esc = ESC(3);
    lc::boson_es_constructor besc = lc::boson_es_constructor(4);
    lc::var_number vn[2] = {lc::var_number(2), lc::var_number(1, 3)};
    std::vector<PCoef<S>> coef;
  };

  //---------------------------------------------------------------- set-up
  static Letter letter(Rng& r) {
    Letter l;
    l.idx = int(r.below(4));
    l.mult = 0;
    switch(r.below(6)) {
    case 0: case 1: l.alg = lc::fermion; l.a = int(r.below(2)); break;
    case 2: l.alg = lc::boson; l.a = int(r.below(2)); break;
    case 3: l.alg = lc::spin; l.a = int(r.below(3)); l.mult = r.range(2, 4); break;
    case 4: l.alg = CLIFF; l.idx &= 1; l.a = int(r.below(2)); break;
    default: l.alg = TRI; l.idx &= 1; l.a = 0; break;
    }
    return l;
  }
  static Word word(Rng& r, int lo, int hi) {
    Word w;
    for(int k = r.range(lo, hi); k > 0; --k) w.push_back(letter(r));
    return w;
  }
  static cplx number(Rng& r, bool re) {
    static const double v[] = {1, -1, 2, 0.5, 3, -0.5, -2, 1};
    return cplx(v[r.below(8)], re || r.chance(1, 2) ? 0 : v[r.below(8)]);
  }
  static Word word_on(Rng& r, MHS const& m) {
    Word w;
    for(int k = r.range(1, 3); k > 0; --k) w.push_back(letter_on(r, m));
    return w;
  }
  static X expr_on(Rng& r, MHS const& m, int terms) {
    X e;
    for(int k = r.range(1, terms); k > 0; --k) e += X(from_c<S>::make(number(r, real)), make_mono<I...>(word_on(r, m)));
    return e;
  }
  static std::unique_ptr<Shared_> make(Rng& r) {
    std::unique_ptr<Shared_> w(new Shared_);
    for(int i = 0; i < NX; ++i)
      for(int k = r.range(1, 4); k > 0; --k)
        w->x[i] += X(from_c<S>::make(number(r, real)), make_mono<I...>(word(r, 0, 3)));
    for(int k = 0; k < 3; ++k) w->xr += XR(from_c<R>::make(number(r, true)), make_mono<I...>(word(r, 1, 3)));
    for(int i = 0; i < NM; ++i) w->m[i] = make_mono<I...>(word(r, i ? 1 : 0, 5));
    for(int i = 0; i < NG; ++i) w->gen[i] = make_gen<I...>(letter(r));
    w->lf[0] = LF(w->vn[0], w->gen[0], w->vn[1], w->gen[1], 2);
    w->gen[2]->conj(w->lf[1]);
    for(int i = 0; i < NE; ++i) w->es[i] = make_es<I...>(random_space(r, 3, 15, 5));
    for(int h = 0; h < NH; ++h) {
      MHS m;
      for(int k = r.range(1, 4); k > 0; --k) {
        SD d = random_space(r, 3, 15, 4);
        if(d.alg < 0 && d.par < 2) d.par = 2;
        MHS t = m;
        t.insert(d);
        if(t.bits() <= 5) m = t;
      }
      if(m.es.empty()) m.insert(SD{lc::fermion, 0, 2});
      for(auto const& d : m.es) w->hs[h].add(*make_es<I...>(d));
      w->mh[h] = m;
      for(int k = r.range(1, 3); k > 0; --k)
        w->xp[h] += XP(PCoef<S>(number(r, true), number(r, true), number(r, true)), make_mono<I...>(word_on(r, m)));
      w->par[h].reset(new Par_t(w->xp[h], w->hs[h]));
      u64 n = u64(1) << m.bits();
      w->u[h] = UVec<S>(n);
      w->sv[h].reset(new SV(n));
      for(int k = 0; k < 4; ++k) {
        u64 st = m.state(r.below(m.dim()));
        S c = from_c<S>::make(number(r, real));
        w->u[h].d.emplace(st, c);
        (*w->sv[h])[st] = c;
      }
    }
    for(u64 k = 0; k < u64(1) << w->mh[0].bits(); ++k) w->dense.push_back(from_c<S>::make(w->mh[0].is_state(k) && r.chance(1, 2) ? number(r, real) : 0.0));
    for(int i = 0; i < NO; ++i) w->op[i].reset(new Op_t(expr_on(r, w->mh[i / 2], 4), w->hs[i / 2]));
    X e = expr_on(r, w->mh[0], 2);
    w->ops.push_back(Op_t(e, w->hs[0]));
    w->ops.push_back(Op_t(conj(e), w->hs[0]));
    w->sp.reset(new SP(*w->op[0], w->hs[0]));
    w->bm[0].reset(new lc::basis_mapper(*w->op[1], w->hs[0]));
    std::vector<lc::sv_index_type> st;
    for(u64 k = 0; k < w->mh[0].dim(); ++k)
      if(r.chance(2, 3)) st.push_back(w->mh[0].state(k));
    w->bm[1].reset(new lc::basis_mapper(st));
    w->vs.reset(new VS(r, 1, 15));
    w->vs->random_sectors(r, w->sectors, w->masks);
    for(int i = 0; i < NV; ++i) {
      int k = int(r.below(u64(VS::n_kinds())));
      if(!w->vs->possible(k)) continue;
      w->proto[i] = w->vs->prepare(r, k);
      auto& p = w->proto[i];
      if(p.k < 0 || p.model->keys.empty()) continue;
      w->vec[i] = w->vs->build(p);
      for(int q = 0; q < 5 && w->vec[i]->writable(); ++q) {
        u64 n = p.model->keys[r.below(p.model->keys.size())];
        cplx c = number(r, real);
        w->vec[i]->add(n, from_c<S>::make(c));
      }
      if(VS::kind(k).konst && VS::kind(k).ref && r.chance(1, 2)) w->vec[i] = w->vs->build(p, true);
    }
    if(w->vs->m.bits() <= 8 && !w->vs->m.es.empty()) w->vop.reset(new Op_t(expr_on(r, w->vs->m, 3), w->vs->hs));
    for(int k = r.range(2, 8); k > 0; --k) {
      SD d = random_space(r, 9, 15, 9);
      if(d.alg == lc::boson) d.par = r.chance(1, 2) ? r.range(130, 1000) : 1L << r.range(1, 10);
      if(d.alg == lc::spin) d.par = r.range(2, 40);
      if(d.alg < 0 && d.par < 2) d.par = 2;
      MHS t = w->bm_;
      t.insert(d);
      if(t.bits() <= 60) w->bm_ = t;
    }
    if(r.chance(1, 2) || w->bm_.es.empty()) w->bm_.insert(SD{lc::boson, 8, 700}); // has room
    for(auto const& d : w->bm_.es) w->bhs.add(*make_es<I...>(d));
    for(auto& o : w->bop) o.reset(new Op_t(expr_on(r, w->bm_, 3), w->bhs));
    w->bpar.reset(new Par_t(XP(PCoef<S>(number(r, true), number(r, true), number(r, true)), make_mono<I...>(word_on(r, w->bm_))), w->bhs));
    u64 bn = u64(1) << w->bm_.bits();
    w->bu = UVec<S>(bn);
    w->bsv.reset(new SV(bn));
    for(int k = 0; k < 6; ++k) {
      u64 st = w->bm_.state(r.below(w->bm_.dim()));
      S c = from_c<S>::make(number(r, real));
      w->bu.d.emplace(st, c);
      (*w->bsv)[st] = c;
    }
    w->bvs.reset(new VS(r, 2, 15));
    w->bvs->random_sectors(r, w->bsectors, w->bmasks);
    for(int i = 0; i < NW; ++i) {
      int k = int(r.below(u64(VS::n_kinds())));
      if(!w->bvs->possible(k)) continue;
      w->bproto[i] = w->bvs->prepare(r, k);
      auto& p = w->bproto[i];
      if(p.k < 0 || p.model->keys.empty()) continue;
      w->bvec[i] = w->bvs->build(p);
      for(int q = 0; q < 5 && w->bvec[i]->writable(); ++q)
        w->bvec[i]->add(p.model->keys[r.below(p.model->keys.size())], from_c<S>::make(number(r, real)));
      if(VS::kind(k).konst && VS::kind(k).ref && r.chance(1, 2)) w->bvec[i] = w->bvs->build(p, true);
    }
    for(int k = 0; k < 2; ++k) w->coef.push_back(PCoef<S>(number(r, true), number(r, true), number(r, true)));
    return w;
  }

  //---------------------------------------------------------------- digests (no faults)
  static std::string amp(u64 k, cplx c) {
    char b[80];
    snprintf(b, sizeof b, "%llu:(%.10g,%.10g) ", (unsigned long long)k, c.real() + 0.0, c.imag() + 0.0);
    return b;
  }
  static std::string dig(UVec<S> const& u) {
    std::string r;
    for(auto const& x : u.d)
      if(val(x.second) != 0.0) r += amp(x.first, val(x.second));
    return r;
  }
  static std::string dig(SV const& v) {
    std::map<u64, cplx> m;
    foreach(v, [&](u64 n, S const& x) { m[n] = val(x); });
    std::string r = std::to_string(v.n_nonzeros()) + " ";
    for(auto const& x : m) r += amp(x.first, x.second);
    return r;
  }
  static std::string dig(std::vector<S> const& v) {
    std::string r;
    for(std::size_t k = 0; k < v.size(); ++k)
      if(val(v[k]) != 0.0) r += amp(k, val(v[k]));
    return r;
  }
  static std::string dig(AnyVec<S> const& v, VModel const& m) {
    std::map<u64, cplx> a;
    if(m.each) v.each([&](u64 n, S const& x) { a[n] = val(x); });
    std::string r;
    for(auto const& x : a) r += amp(x.first, x.second);
    r += "| ";
    for(u64 n : m.keys) r += amp(v.view() ? v.slot(n) : n, val(v.get(n)));
    return r;
  }
  static std::string dig(Op_t const& op, MHS const& m) {
    std::string r;
    for(u64 k = 0; k < m.dim() && k < 8; ++k) {
      UVec<S> a(u64(1) << m.bits()), b(u64(1) << m.bits());
      a.d.emplace(m.state(k), from_c<S>::make(1));
      op(a, b);
      r += dig(b) + "; ";
    }
    return r;
  }
  static std::string dig(lc::basis_mapper const& b) {
    std::map<u64, u64> v(b.map().begin(), b.map().end());
    std::string r;
    for(auto const& x : v) r += std::to_string(x.first) + ">" + std::to_string(x.second) + " ";
    return r;
  }
  static std::string dig(std::vector<lc::sv_index_type> const& v) {
    std::string r;
    for(auto x : v) r += std::to_string(x) + " ";
    return r;
  }
  static std::string dig(SP const& p, MHS const& m) {
    std::string r = std::to_string(p.n_subspaces()) + "/" + std::to_string(p.dim()) + ": ";
    for(u64 k = 0; k < m.dim(); ++k) r += std::to_string(p[m.state(k)]) + " ";
    return r;
  }
  static std::string dig(X const& x) { return text(read_expr(x)); }
  static std::string dig(LF const& f) {
    std::ostringstream o;
    o << f.const_term;
    for(auto const& x : f.terms) o << " + " << x.second << *x.first;
    return o.str();
  }
  static std::string dig(ES const& e) { return text(read_es(e)) + " " + std::to_string(e.n_bits()); }
  static std::string dig(HS const& h) {
    std::string r;
    h.foreach_elementary_space([&](ES const& e) {
      auto b = h.bit_range(e);
      r += dig(e) + "@" + std::to_string(b.first) + ".." + std::to_string(b.second) + "#" + std::to_string(h.index(e)) + " ";
    });
    return r + std::to_string(h.dim()) + " " + std::to_string(h.total_n_bits());
  }
  // value of everything
  static std::string all(Shared_ const& w) {
    return quiet([&] {
      std::string r;
      for(auto const& x : w.x) r += dig(x) + "\n";
      r += text(read_expr(w.xr)) + "\n";
      for(auto const& m : w.m) r += text(read_mono(m)) + "\n";
      for(auto const& x : w.gen) r += text(read_gen(*x)) + "\n";
      for(auto const& f : w.lf) r += dig(f) + "\n";
      for(auto const& e : w.es) r += dig(*e) + "\n";
      for(int h = 0; h < NH; ++h) {
        r += dig(w.hs[h]) + "\n" + dig(w.par[h]->at(2.0), w.mh[h]) + "\n" + dig(w.u[h]) + "\n" + dig(*w.sv[h]) + "\n";
        check_hs(const_cast<HS&>(w.hs[h]), w.mh[h], "shared Hilbert spaces");
      }
      for(int i = 0; i < NO; ++i) r += dig(*w.op[i], w.mh[i / 2]) + "\n";
      for(auto const& o : w.ops) r += dig(o, w.mh[0]) + "\n";
      r += dig(*w.sp, w.mh[0]) + "\n" + dig(*w.bm[0]) + "\n" + dig(*w.bm[1]) + "\n" + dig(w.dense) + "\n";
      for(int i = 0; i < NV; ++i)
        if(w.vec[i]) r += dig(*w.vec[i], *w.proto[i].model) + "\n";
      r += dig(w.bhs) + "\n" + dig(w.bu) + "\n" + dig(*w.bsv) + "\n";
      for(auto const& o : w.bop) {
        UVec<S> d(w.bu.n);
        (*o)(w.bu, d);
        r += dig(d) + "\n";
      }
      for(int i = 0; i < NW; ++i)
        if(w.bvec[i]) r += dig(*w.bvec[i], *w.bproto[i].model) + "\n";
      return r;
    });
  }

  //---------------------------------------------------------------- a thread
  Shared_ const& w;
  X mine[3];
  explicit Run(Shared_ const& s) : w(s) {}

  static bool big(X const& x) {
    if(x.get_monomials().size() > 8) return true;
    for(auto const& t : x.get_monomials())
      if(t.first.size() > 4 || std::abs(val(t.second)) > 1e3) return true;
    return false;
  }

  void step(Op const& op) {
    Rng r(u64(op.a[2]) * 77777 + u64(op.a[3]));
    int var = op.a[5];
    X const &a = w.x[op.a[0] % NX], &b = w.x[op.a[1] % NX];
    M const &ma = w.m[op.a[0] % NM], &mb = w.m[op.a[1] % NM];
    int h = op.a[0] % NH;
    HS const& hs = w.hs[h];
    MHS const& mh = w.mh[h];
    std::string out;
    auto failed = [&] { out.clear(); };
    auto go = [&](auto const& f, bool absorb = false) {
      std::exception_ptr err; // errors of the library's own are results, too
      auto f2 = [&] {
        err = nullptr;
        try {
          f();
        } catch(Injected const&) {
          throw;
        } catch(std::bad_alloc const&) {
          throw;
        } catch(std::exception const&) {
          err = std::current_exception();
        }
      };
      if(perform(op, f2, failed, absorb)) {
        if(err) quiet([&] {
          try {
            std::rethrow_exception(err);
          } catch(std::exception const& e) {
            out = e.what();
          }
        });
        err = nullptr;
        log_str(out);
      } else
        log_u64(0);
      if(g.verbose) trace("op %d %s -> %s", sh->cur_op, code_name[op.code], out.c_str());
    };
    auto say = [&](auto const& f) { // results are described without faults
      quiet([&] {
        Pause p;
        out += f() + " ";
      });
    };
    switch(op.code) {
    case SUM:
      go([&] {
        X c = var % 4 == 0 ? X(a + b) : var % 4 == 1 ? X(a - b) : var % 4 == 2 ? X(-a) : X(a + w.xr);
        say([&] { return dig(c); });
      });
      break;
    case PRODUCT:
      go([&] {
        X c = a * b;
        if(var % 3 == 0) c -= b * a;
        if(var % 3 == 1) c *= a;
        say([&] { return std::to_string(c.size()) + (c.size() < 40 ? dig(c) : ""); });
      });
      break;
    case SCALE: {
      S c = from_c<S>::make(number(r, real));
      if(a.get_monomials().empty()) break;
      S const& own = a.get_monomials().begin()->second;
      go([&] {
        X y;
        switch(var % 7) {
        case 0: y = a * c; break;
        case 1: y = c * a; break;
        case 2: y = a + c; break;
        case 3: y = c - a; break;
        case 4: y = a * own; break;
        case 5: y = own + b; break;
        default: y = b - own;
        }
        say([&] { return dig(y); });
      });
      break;
    }
    case COMPARE: {
      X const& c = w.x[(op.a[1] + 1) % NX];
      go([&] {
        bool q[] = {a == b, a != c, ma == mb, ma != mb, ma < mb, mb > ma, *w.gen[0] == *w.gen[op.a[1] % NG], *w.gen[1] < *w.gen[op.a[1] % NG],
                    *w.gen[1] > *w.gen[op.a[0] % NG], *w.es[0] == *w.es[op.a[0] % NE], *w.es[1] < *w.es[op.a[0] % NE], *w.es[2] > *w.es[op.a[1] % NE],
                    w.hs[0] == w.hs[1], w.hs[0] != hs, ma.is_ordered()};
        out = "";
        Pause p;
        for(bool x : q) out += x ? '1' : '0';
      });
      break;
    }
    case ITERATE:
      go([&] {
        long n = 0;
        for(auto it = a.begin(); it != a.end(); ++it) {
          n = n * 7 + long(it->monomial.size());
          for(auto const& x : it->monomial) n = n * 3 + x.algebra_id();
          for(auto q = it->monomial.rbegin(); q != it->monomial.rend(); ++q) n = n * 5 + (*q == it->monomial[0]);
          n += val(it->coeff).real() > 0;
        }
        auto it = a.end();
        while(it != a.begin()) {
          --it;
          auto const& t = *it;
          n = n * 11 + long(t.monomial.size());
        }
        say([&] { return std::to_string(n); });
      });
      break;
    case PRINT:
      go([&] {
        QuietSink s;
        std::ostream o(&s);
        switch(var % 5) {
        case 0: o << a; break;
        case 1: o << ma << mb; break;
        case 2: o << *w.gen[op.a[0] % NG] << w.vn[0]; break;
        case 3: o << b << w.vn[1]; break;
        default: o << w.xr;
        }
        say([&] { return s.s + (o.good() ? "" : " bad"); });
      }, true);
      break;
    case COPY:
      go([&] {
        X c(a);
        M m(ma);
        GP q = w.gen[op.a[1] % NG];
        HS k(hs);
        say([&] { return dig(c) + text(read_mono(m)) + text(read_gen(*q)) + dig(k); });
      });
      break;
    case CHANGE_COPY: {
      S c = from_c<S>::make(2);
      SD d = random_space(r, 4, 15, 4);
      if(d.alg < 0 && d.par < 2) d.par = 2;
      bool there = mh.find(d) >= 0;
      auto es = make_es<I...>(d);
      go([&] {
        X y(a);
        switch(var % 8) {
        case 0: y += b; break;
        case 1: y -= a; break;
        case 2: y *= c; break;
        case 3: y *= b; break;
        case 4: y += c; break;
        case 5: y.clear(); break;
        case 6: {
          M m(ma);
          m.append(mb);
          if(m.size() > 1) m.swap_generators(0, m.size() - 1);
          say([&] { return text(read_mono(m)); });
          break;
        }
        default: {
          HS k(hs);
          if(!there) k.add(*es);
          say([&] { return dig(k); });
        }
        }
        say([&] { return dig(y); });
      });
      break;
    }
    case CONVERT:
      go([&] {
        X y(w.xr);
        if(var & 1) y = w.xr;
        if(var & 2) y += w.xr;
        if(var & 4) {
          X z;
          z = a;
          y -= z;
        }
        say([&] { return dig(y); });
      });
      break;
    case TRANSFORM:
      go([&] {
        X y;
        if(var % 3 == 0) y = conj(a);
        if(var % 3 == 1)
          y = transform(a, [](M const& m, S const& c) -> S {
            point(K_CB);
            return m.size() > 1 ? S(c) : from_c<S>::make(0);
          });
        if(var % 3 == 2) y = conj(a) * b;
        say([&] { return dig(y); });
      });
      break;
    case MONOMIAL:
      go([&] {
        M c = concatenate(ma, mb);
        M d;
        if(!ma.empty() && !mb.empty()) d = concatenate(ma[0], std::make_pair(mb.begin(), mb.end()), ma);
        d.append(std::make_pair(ma.begin(), ma.end()));
        M e{w.gen[0], w.gen[op.a[1] % NG]};
        e.append(*w.gen[2]);
        say([&] { return text(read_mono(c)) + text(read_mono(d)) + text(read_mono(e)); });
      });
      break;
    case GENERATOR: {
      G const &g1 = *w.gen[op.a[0] % NG], &g2 = *w.gen[op.a[1] % NG];
      go([&] {
        LF f;
        if(g1 > g2) {
          lc::var_number c = swap_with(g1, g2, f);
          say([&] {
            std::ostringstream o;
            o << c;
            return o.str() + dig(f);
          });
        } else if(simplify_prod(g1, g2, f))
          say([&] { return dig(f); });
        LF k;
        g1.conj(k);
        LF q;
        bool rp = g2.reduce_power(3, q);
        std::string s = g1.to_string();
        say([&] { return dig(k) + (rp ? dig(q) : "no") + s; });
      });
      break;
    }
    case SPACE: {
      auto es = make_es<I...>(mh.es[r.below(mh.es.size())]);
      go([&] {
        u64 n = hs.size() * 1000 + hs.dim() + u64(hs.total_n_bits()) + hs.vec_size() + get_dim(hs) + get_vec_size(hs) + (hs.is_sparse() ? 1 : 0);
        n = n * 31 + u64(hs.has(*es)) + u64(hs.index(*es)) * 3 + hs.dim(*es) * 7 + u64(hs.bit_range(*es).second) * 11;
        n += hs.has(*w.es[op.a[1] % NE]);
        if(hs.has_algebra(es->algebra_id())) n = n * 13 + u64(hs.algebra_bit_range(es->algebra_id()).second);
        foreach(hs, [&](lc::sv_index_type st) {
          point(K_CB);
          n = mix(n ^ st);
        });
        hs.foreach_elementary_space([&](ES const& e) { n = mix(n ^ u64(e.algebra_id()) ^ e.dim()); });
        say([&] { return std::to_string(n); });
      });
      break;
    }
    case NEW_SPACE:
      go([&] {
        HS k(a, w.esc);
        HS l(w.xr, w.esc);
        HS n = var & 1 ? HS(hs) : make_hilbert_space(b, w.esc);
        bool eq = n == hs;
        say([&] { return dig(k) + dig(l) + dig(n) + (eq ? "=" : ""); });
      });
      break;
    case NEW_OP: {
      X e = expr_on(r, mh, 3);
      go([&] {
        Op_t o(e, hs);
        Par_t p(w.xp[h], hs);
        say([&] { return dig(o, mh) + dig(p.at(1.0), mh); });
      });
      break;
    }
    case APPLY: {
      int i = op.a[1] % NO;
      Op_t const& o = *w.op[i];
      go([&] {
        switch(var % 5) {
        case 0: {
          UVec<S> d = o(w.u[i / 2]);
          say([&] { return dig(d); });
          break;
        }
        case 1: {
          SV d = o * *w.sv[i / 2];
          say([&] { return dig(d); });
          break;
        }
        case 2: {
          SV d(w.sv[i / 2]->size());
          o(w.u[i / 2], d);
          say([&] { return dig(d); });
          break;
        }
        case 3: {
          std::vector<S> d = w.ops[unsigned(op.a[0]) % 2](w.dense);
          w.ops[1](w.dense, d);
          say([&] { return dig(d); });
          break;
        }
        default: {
          UVec<S> d(w.u[i / 2].n), k(w.u[i / 2].n);
          o(w.u[i / 2], d);
          o(d, k);
          say([&] { return dig(k); });
        }
        }
      });
      break;
    }
    case PARAM: {
      Par_t const& p = *w.par[h];
      go([&] {
        switch(var % 5) {
        case 0: {
          UVec<S> d = p(w.u[h], 2.0);
          say([&] { return dig(d); });
          break;
        }
        case 1: {
          UVec<S> d(w.u[h].n);
          p(w.u[h], d, 3.0);
          say([&] { return dig(d); });
          break;
        }
        case 2: {
          UVec<S> d(w.u[h].n);
          std::vector<S> buf;
          p.act_and_store_coeffs(w.u[h], d, buf, 1.0);
          p.act_and_store_coeffs(w.u[h], d, buf, 2.5);
          say([&] { return dig(d) + dig(buf); });
          break;
        }
        case 3: {
          auto o = p.at(std::string("abc"));
          say([&] { return dig(o, mh); });
          break;
        }
        default: {
          S c = w.coef[unsigned(op.a[1]) % 2](1.5);
          auto o = p.at(0.5);
          UVec<S> d = o(w.u[h]);
          say([&] { return dig(d) + amp(0, val(c)); });
        }
        }
      });
      break;
    }
    case COPY_OP:
      go([&] {
        Op_t o(*w.op[op.a[1] % NO]);
        Par_t p(*w.par[h]);
        o = *w.op[op.a[0] % NO];
        std::vector<Op_t> l(w.ops);
        say([&] { return dig(o, w.mh[op.a[0] % NO / 2]) + dig(p.at(2.0), mh) + dig(l[0], w.mh[0]); });
      });
      break;
    case PARTITION:
      go([&] {
        SP const& p = *w.sp;
        u64 n = p.dim() * 100 + p.n_subspaces();
        switch(var % 4) {
        case 0:
          foreach(p, [&](lc::sv_index_type st, lc::sv_index_type s) {
            point(K_CB);
            n = mix(n ^ st << 20 ^ s);
          });
          break;
        case 1:
          for(auto const& l : p.subspace_bases())
            for(auto st : l) n = mix(n ^ st);
          break;
        case 2:
          for(auto st : p.subspace_basis(u64(op.a[1]) % p.n_subspaces())) n = mix(n ^ st);
          break;
        default:
          for(auto const& c : p.find_connections(w.ops[unsigned(op.a[1]) % 2])) n = mix(n ^ c.first << 20 ^ c.second);
        }
        for(u64 k = 0; k < w.mh[0].dim(); ++k) n = mix(n ^ p[w.mh[0].state((k * 7 + u64(op.a[1])) % w.mh[0].dim())]);
        say([&] { return std::to_string(n); });
      });
      break;
    case NEW_PARTITION:
      go([&] {
        lc::matrix_elements_map<S> me;
        if(var & 1) {
          SP p(*w.op[1], w.hs[0], me);
          say([&] { return dig(p, w.mh[0]) + std::to_string(me.size()); });
        } else {
          auto p = lc::make_space_partition(w.ops[1], w.hs[0]);
          say([&] { return dig(p, w.mh[0]); });
        }
      });
      break;
    case MERGE_COPY:
      go([&] {
        SP p(*w.sp);
        auto me = p.merge_subspaces(w.ops[0], w.ops[1], var & 1);
        say([&] { return dig(p, w.mh[0]) + std::to_string(me.first.size()) + " " + std::to_string(me.second.size()); });
      });
      break;
    case MAPPER: {
      lc::basis_mapper const& m = *w.bm[op.a[0] % 2];
      go([&] {
        auto inv = m.inverse_map();
        std::vector<S> st(m.size(), from_c<S>::make(0));
        auto v = m.make_view(st);
        for(auto const& x : inv) {
          S c = from_c<S>::make(double(x.first + 1));
          update_add_element(v, x.second, c);
        }
        auto cv = m.make_const_view(w.dense); // more amplitudes than needed
        std::map<u64, double> q;
        double s = 0;
        foreach(v, [&](u64 n, S const& c) {
          Pause pp;
          q[n] = val(c).real();
        });
        for(auto const& x : m.map())
          if(x.second < w.dense.size()) s += val(S(get_element(cv, x.first))).real() * double(x.first + 3);
        lc::basis_mapper copy(m);
        say([&] {
          std::string t = std::to_string(s) + dig(copy);
          for(auto const& x : q) t += amp(x.first, x.second);
          return t;
        });
      });
      break;
    }
    case NEW_MAPPER:
      go([&] {
        if(var & 1) {
          lc::basis_mapper m(w.ops, w.hs[0], unsigned(op.a[1]) % 3);
          say([&] { return dig(m); });
        } else {
          lc::basis_mapper m(*w.op[1], w.hs[0]);
          say([&] { return dig(m); });
        }
      });
      break;
    case VIEW: {
      int i = op.a[0] % NV;
      for(int k = 0; k < NV && !w.vec[i]; ++k) i = (i + 1) % NV;
      if(!w.vec[i]) break;
      AnyVec<S> const& v = *w.vec[i];
      VModel const& m = *w.proto[i].model;
      go([&] {
        std::map<u64, cplx> q;
        double s = 0;
        v.each([&](u64 n, S const& x) {
          point(K_CB);
          Pause pp;
          q[n] = val(x);
        });
        for(u64 n : m.keys) {
          s = s * 1.25 + val(v.get(n)).real();
          if(v.view()) s += double(v.slot(n) % 16) / 16;
        }
        typename VS::Ptr c;
        if(var & 1) c = v.clone();
        if(var & 2) {
          auto l = v.like();
          say([&] { return l ? dig(*l, m) : "-"; });
        }
        say([&] {
          std::string t = std::to_string(s) + (c ? dig(*c, m) : "");
          for(auto const& x : q) t += amp(x.first, x.second);
          return t;
        });
      });
      break;
    }
    case VIEW_OP: {
      int i = op.a[0] % NV;
      for(int k = 0; k < NV && !w.vec[i]; ++k) i = (i + 1) % NV;
      if(!w.vec[i] || !w.vop || !w.proto[i].model->each) break;
      bool inside = true; // mapped views may contain anything
      for(u64 n : w.proto[i].model->keys) inside &= w.vs->m.is_state(n);
      if(!inside) break;
      go([&] {
        UVec<S> d(u64(1) << w.vs->m.bits());
        w.vec[i]->to(*w.vop, d);
        say([&] { return dig(d); });
      });
      break;
    }
    case SECTOR: {
      int n = w.vs->M ? int(r.below(u64(w.vs->M) + 1)) : 0;
      typename VS::Proto p;
      int kind = int(r.below(u64(VS::n_kinds())));
      if(var % 4 == 3) {
        if(!w.vs->possible(kind)) break;
        p = w.vs->prepare(r, kind);
        if(p.k < 0 || p.model->keys.empty()) break;
      }
      go([&] {
        switch(var % 4) {
        case 0: {
          auto l = lc::n_fermion_sector_basis_states(w.vs->hs, unsigned(n));
          u64 s = lc::n_fermion_sector_size(w.vs->hs, unsigned(n));
          say([&] { return dig(l) + std::to_string(s); });
          break;
        }
        case 1: case 2: {
          auto l = lc::n_fermion_multisector_basis_states(w.vs->hs, w.sectors);
          u64 s = lc::n_fermion_multisector_size(w.vs->hs, w.sectors);
          say([&] { return dig(l) + std::to_string(s); });
          break;
        }
        default: {
          auto v = w.vs->build(p);
          say([&] { return dig(*v, *p.model); });
        }
        }
      }, true);
      break;
    }
    case ERROR: {
      auto es = make_es<I...>(SD{lc::spin, 5, 7});
      X bad(from_c<S>::make(1), make_mono<I...>({Letter{lc::fermion, 5, 1, 0}, Letter{lc::spin, 5, 1, 7}}));
      std::exception_ptr err;
      auto f = [&] {
        switch(var % 8) {
        case 0: (void)hs.index(*es); break;
        case 1: (void)hs.bit_range(*es); break;
        case 2: (void)hs.algebra_bit_range(-17); break;
        case 3: { Op_t o(bad, hs); break; }
        case 4: { HS k(a * bad, lc::es_constructor<lc::boson>(2)); break; }
        case 5: (void)w.sp->subspace_basis(1u << 20); break;
        case 6: (void)(*w.sp)[1u << 20]; break;
        default: { HS k(hs); k.add(*make_es<I...>(mh.es[0])); }
        }
      };
      if(perform_err(op, f, failed, err)) {
        quiet([&] {
          try {
            if(err) std::rethrow_exception(err);
            out = "none";
          } catch(std::exception const& e) {
            out = e.what();
          }
        });
        err = nullptr;
        log_str(out);
      } else
        log_u64(0);
      break;
    }
    case ESPACE: {
      ES const& e = *w.es[op.a[0] % NE];
      G const& gn = *w.gen[op.a[1] % NG];
      bool std_alg = gn.algebra_id() < 0;
      go([&] {
        auto c = e.clone();
        u64 n = e.dim() * 100 + u64(e.n_bits()) * 10 + (*c == *w.es[op.a[1] % NE]) + u64(e.algebra_id() + 20);
        auto k = w.esc(gn);
        std::unique_ptr<ES> l;
        if(std_alg) l = w.besc(gn);
        HS q(e);
        say([&] { return std::to_string(n) + dig(*c) + dig(*k) + (l ? dig(*l) : ""); });
        (void)q;
      });
      break;
    }
    case SPARSE:
      go([&] {
        SV c(*w.sv[h]), z = zeros_like(*w.sv[h]);
        foreach(*w.sv[h], [&](u64 n, S const& x) { update_add_element(z, n, x); });
        UVec<S> uz = zeros_like(w.u[h]);
        foreach(w.u[h], [&](u64 n, S const& x) { update_add_element(uz, n, x); });
        std::vector<S> d = zeros_like(w.dense);
        foreach(w.dense, [&](u64 n, S const& x) { update_add_element(d, n, x); });
        S y = get_element(*w.sv[h], u64(op.a[1]) % w.sv[h]->size());
        c.prune();
        set_zeros(z);
        say([&] { return dig(c) + dig(z) + dig(uz) + dig(d) + amp(w.sv[h]->n_nonzeros(), val(y)); });
      });
      break;
    case LINEAR:
      go([&] {
        LF f(w.lf[op.a[0] % 2]);
        LF k(w.vn[0], f.terms);
        f.set(w.vn[1], w.gen[3], w.vn[0]);
        bool van = w.lf[1].vanishing();
        say([&] { return dig(f) + dig(k) + (van ? "v" : "n"); });
      });
      break;
    case BIG: {
      Op_t const& o = *w.bop[op.a[1] % NB];
      go([&] {
        switch(var % 6) {
        case 0: {
          UVec<S> d = o(w.bu);
          say([&] { return dig(d); });
          break;
        }
        case 1: {
          SV d(w.bsv->size());
          o(*w.bsv, d);
          o(w.bu, d);
          say([&] { return dig(d); });
          break;
        }
        case 2: {
          UVec<S> d(w.bu.n), k(w.bu.n);
          (*w.bpar)(w.bu, d, 2.0);
          o(d, k);
          say([&] { return dig(k); });
          break;
        }
        case 3: {
          Op_t c(o);
          SV d = c * *w.bsv;
          say([&] { return dig(d); });
          break;
        }
        case 4: {
          struct Enough {};
          u64 n = 0, k = 0;
          try {
            foreach(w.bhs, [&](lc::sv_index_type st) {
              n = mix(n ^ st);
              if(++k == 20) throw Enough();
            });
          } catch(Enough) {}
          say([&] { return std::to_string(n) + dig(w.bhs); });
          break;
        }
        default: {
          X e = quiet([&] { return expr_on(r, w.bm_, 2); });
          Op_t k(e, w.bhs);
          UVec<S> d = k(w.bu);
          HS h2(w.bhs);
          bool eq = h2 == w.bhs;
          say([&] { return dig(d) + dig(h2) + (eq ? "=" : ""); });
        }
        }
      });
      break;
    }
    case BIG_VIEW: {
      int i = op.a[0] % NW;
      for(int k = 0; k < NW && !w.bvec[i]; ++k) i = (i + 1) % NW;
      AnyVec<S> const* v = w.bvec[i].get();
      VModel const* m = w.bproto[i].model.get();
      go([&] {
        std::map<u64, cplx> q;
        double s = 0;
        if(v) {
          if(m->each)
            v->each([&](u64 n, S const& x) {
              point(K_CB);
              Pause pp;
              q[n] = val(x);
            });
          for(u64 n : m->keys) {
            s = s * 1.25 + val(v->get(n)).real();
            if(v->view()) s += double(v->slot(n) % 16) / 16;
          }
        }
        typename VS::Ptr c;
        if(v && var & 1) c = v->clone();
        u64 z = lc::n_fermion_multisector_size(w.bvs->hs, w.bsectors);
        z += w.bvs->M ? lc::n_fermion_sector_size(w.bvs->hs, unsigned(op.a[1]) % unsigned(w.bvs->M + 1)) : 0;
        say([&] {
          std::string t = std::to_string(s) + " " + std::to_string(z) + (c ? dig(*c, *m) : "");
          for(auto const& x : q) t += amp(x.first, x.second);
          return t;
        });
      }, true);
      break;
    }
    case KEEP: {
      int i = op.a[1] % 3;
      X start = quiet([&] { return mine[i]; });
      if(perform(
             op,
             [&] {
               if(var % 4 == 0 || big(mine[i])) mine[i] = a;
               if(var % 4 == 1) mine[i] += a;
               if(var % 4 == 2) mine[i] = mine[i] * b;
               if(var % 4 == 3) mine[i] -= mine[(i + 1) % 3];
             },
             [&] { quiet([&] { mine[i] = start; }); }))
        log_str(quiet([&] { return dig(mine[i]); }));
      else
        log_u64(0);
      break;
    }
    }
  }
  void run(Plan const& p, std::vector<int> const& ops) {
    for(std::size_t k = 0; k < ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(p.ops[std::size_t(ops[k])]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
  }

  struct Body : MtBody {
    Plan const* p;
    Shared_ const* w;
    std::vector<std::vector<int>> own;
    void run(int t) override {
      Run r(*w);
      r.run(*p, own[std::size_t(t)]);
    }
    void op_boundary(int, int) override {}
  };
  static void main(Plan const& p) {
    index_id(Indices<I...>::make(0));
    {
      std::ostringstream o;
      o << 1 << ' ' << 1.5 << ' ' << cplx(1, 2) << true << 1ul;
    }
    MtMark live0 = mt_mark();
    long user0 = g.live_user;
    {
      Rng r(p.seed ^ 0xA11);
      auto w = make(r);
      std::string before = all(*w);
      Body b;
      b.p = &p;
      b.w = w.get();
      b.own = ops_of_threads(p, p.cfg[0]);
      mt_run(p, p.cfg[0], b);
      std::string after = all(*w);
      if(after != before) {
        std::size_t k = 0, s = 0;
        while(k < after.size() && k < before.size() && after[k] == before[k]) {
          if(after[k] == '\n') s = k + 1;
          ++k;
        }
        fail("mt-changed", "a shared object has changed from %s to %s", before.substr(s, 200).c_str(), after.substr(s, 200).c_str());
      }
      log_str(after);
    }
    if(g.live_user != user0) fail("mt-leak", "%ld user-supplied objects were not released", g.live_user - user0);
    if(long n = mt_lost(live0)) fail("mt-leak", "%ld blocks were not released", n);
  }
};

void gen(Rng& r, Plan& p, int size) {
  int n = r.chance(1, 2) ? 2 : r.chance(1, 2) ? 3 : 4;
  p.cfg = {n};
  int pick[4], np = r.chance(1, 3) ? 0 : r.range(1, 4); // few kinds of operations meet more often
  for(int k = 0; k < np; ++k) pick[k] = int(r.below(NCODES));
  bool focus = r.chance(1, 2); // on the same objects
  int o0 = int(r.below(1 << 15)), o1 = int(r.below(1 << 15));
  for(int t = 0; t < n; ++t)
    for(int k = size ? size : r.range(1, 6); k > 0; --k) {
      Op o;
      o.thr = t;
      o.code = np ? pick[r.below(u64(np))] : int(r.below(NCODES));
      for(int& a : o.a) a = int(r.below(1 << 15));
      if(focus && r.chance(2, 3)) o.a[0] = o0;
      if(focus && r.chance(1, 2)) o.a[1] = o1;
      p.ops.push_back(o);
    }
  random_schedule(r, p);
}

#if SIM_CONF == 0
typedef Run<Scal<0>, Scal<2>, UIdx> TheRun;
#define SIM_NAME "A0"
#elif SIM_CONF == 1
typedef Run<double, double, int> TheRun;
#define SIM_NAME "A1"
#else
typedef Run<cplx, double, dyn_indices> TheRun;
#define SIM_NAME "A2"
#endif
void run(Plan const& p) { TheRun::main(p); }
std::string describe(Plan const&, Op const& o) {
  return "thread " + std::to_string(o.thr) + ": " + code_name[o.code % NCODES] + " objects " + std::to_string(o.a[0] % 12) + " " +
         std::to_string(o.a[1] % 12) + " variant " + std::to_string(o.a[5] % 840);
}
} // namespace
SIM_SCENARIO(A, SIM_NAME, gen, run,
             1u << K_ALLOC | 1u << K_SCALAR | 1u << K_GEN | 1u << K_IDX | 1u << K_ES | 1u << K_ESC | 1u << K_CB | 1u << K_COEF | 1u << K_VEC,
             describe)
} // namespace sim
