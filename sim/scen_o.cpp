// Scenario O: objects of all kinds are copied, moved, assigned (also to
// themselves), derived from each other, modified and destroyed in any order.
// After every step every living object must still have its full value.
#include "views.hpp"
#include "mt.hpp"

#include <functional>
#include <sstream>

namespace sim {
namespace {

enum Code { CREATE, COPY, ASSIGN, MOVE, MOVE_ASSIGN, SELF, SWAP, DESTROY, MODIFY, SELFREF, DERIVE, COMBINE, NCODES };
const char* const code_name[NCODES] = {"create", "copy", "assign", "move", "move-assign", "self-assign", "swap", "destroy", "modify",
                                       "self-reference", "derive", "combine"};
enum Type { T_X, T_XR, T_M, T_GF, T_GB, T_GS, T_EF, T_EB, T_ESPIN, T_EP, T_HS, T_OP, T_PAR, T_SP, T_BM, T_VEC, T_LF, T_LG, T_DYN, T_BEC, NTYPES };
const char* const type_name[NTYPES] = {"expression", "real expression", "monomial", "fermion generator", "boson generator", "spin generator",
                                       "fermion space", "boson space", "spin space", "cloned space", "Hilbert space", "operator",
                                       "parametric operator", "partition", "mapper", "vector", "linear function of monomials",
                                       "linear function of generators", "index sequence", "boson space constructor"};

struct Obj {
  int type;
  bool dead = false; // moved from: may only be assigned to or destroyed
  std::string fp;    // value it must have
  explicit Obj(int t) : type(t) {}
  virtual ~Obj() {}
  virtual std::string read() const = 0; // no faults
  virtual std::unique_ptr<Obj> copy() const = 0;
  virtual std::unique_ptr<Obj> move() = 0;
  virtual bool can_assign() const = 0;
  virtual bool like(Obj const& o) const { return type == o.type; } // may be assigned to each other
  virtual void assign(Obj const& o) = 0;
  virtual void move_assign(Obj& o) = 0;
};
typedef std::unique_ptr<Obj> ObjPtr;

template <class T> struct ObjT : Obj {
  std::shared_ptr<void> keep;
  T v;
  std::function<std::string(T const&)> rd;
  template <class U> ObjT(int t, U&& u, std::function<std::string(T const&)> r, std::shared_ptr<void> k = nullptr)
    : Obj(t), keep(std::move(k)), v(std::forward<U>(u)), rd(std::move(r)) {}
  ObjT(ObjT const&) = default;
  ObjT(ObjT& o, int) : Obj(o.type), keep(o.keep), v(std::move(o.v)), rd(o.rd) { fp = o.fp; }
  typedef std::is_copy_assignable<T> CA;
  std::string read() const override { return rd(v); }
  ObjPtr copy() const override { return ObjPtr(new ObjT(*this)); }
  ObjPtr move() override { return ObjPtr(new ObjT(*this, 0)); }
  bool can_assign() const override { return CA::value; }
  void assign(Obj const& o_) override { as(dynamic_cast<ObjT const&>(o_), CA()); }
  void as(ObjT const& o, std::true_type) {
    v = o.v;
    Pause p;
    keep = o.keep;
    rd = o.rd;
    dead = false;
  }
  void as(ObjT const&, std::false_type) {}
  void move_assign(Obj& o_) override { ma(dynamic_cast<ObjT&>(o_), CA()); }
  void ma(ObjT& o, std::true_type) {
    v = std::move(o.v);
    Pause p;
    keep = o.keep;
    rd = o.rd;
    dead = false;
  }
  void ma(ObjT&, std::false_type) {}
};

template <class T> struct Reader {
  typedef std::function<std::string(T const&)> type;
};

template <class S, class R, typename... I> struct Run {
  typedef lc::expression<S, I...> X;
  typedef lc::expression<R, I...> XR;
  typedef lc::expression<PCoef<S>, I...> XP;
  typedef lc::monomial<I...> M;
  typedef lc::generator<I...> G;
  typedef lc::elementary_space<I...> ES;
  typedef lc::hilbert_space<I...> HS;
  typedef LOp<S> Op_t;
  typedef lc::parametric_loperator<PCoef<S>, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Par_t;
  typedef lc::space_partition<HS> SP;
  typedef lc::sparse_state_vector<S> SV;
  typedef VSpace<S, I...> VS;
  enum { NS = 8, real = from_c<S>::real };

  // elementary spaces behind pointers, copied by clone()
  struct EsPtr {
    std::unique_ptr<ES> p;
    explicit EsPtr(std::unique_ptr<ES> q) : p(std::move(q)) {}
    EsPtr(EsPtr const& o) : p(o.p->clone()) {}
    EsPtr(EsPtr&&) = default;
    EsPtr& operator=(EsPtr const& o) {
      p = o.p->clone();
      return *this;
    }
    EsPtr& operator=(EsPtr&&) = default;
  };
  struct HSBox {
    HS hs;
    MHS m;
    HSBox() = default;
    HSBox(HSBox const&) = default;
    HSBox(HSBox&&) = default;
    HSBox& operator=(HSBox const& o) {
      hs = o.hs;
      Pause p;
      m = o.m;
      return *this;
    }
    HSBox& operator=(HSBox&& o) {
      hs = std::move(o.hs);
      Pause p;
      m = o.m;
      return *this;
    }
  };
  struct VecObj : Obj {
    typename VS::Ptr v;
    typename VS::Proto p;
    std::shared_ptr<VModel> md;
    VecObj(typename VS::Ptr q, typename VS::Proto const& p) : Obj(T_VEC), v(std::move(q)), p(p), md(p.model) {}
    VecObj(VecObj const& o, typename VS::Ptr q) : Obj(T_VEC), v(std::move(q)), p(o.p), md(o.md) {
      Pause pp;
      if(!VS::kind(p.k).ref) md = std::make_shared<VModel>(*o.md);
    }
    std::string read() const override {
      check_vec(*v, *md, "vectors", "now");
      return "";
    }
    ObjPtr copy() const override { return ObjPtr(new VecObj(*this, v->clone())); }
    ObjPtr move() override {
      ObjPtr r(new VecObj(*this, v->moved()));
      static_cast<VecObj&>(*r).md = md;
      return r;
    }
    bool can_assign() const override { return !VS::kind(p.k).ref && VS::kind(p.k).shape != MAPPED; }
    bool like(Obj const& o) const override { return o.type == T_VEC && static_cast<VecObj const&>(o).p.k == p.k; }
    void assign(Obj const& o_) override {
      auto const& o = static_cast<VecObj const&>(o_);
      if(!v->assign(*o.v)) harness_error("vector cannot be assigned");
      Pause pp;
      p = o.p;
      if(&o != this) md = std::make_shared<VModel>(*o.md);
      dead = false;
    }
    void move_assign(Obj& o_) override {
      auto& o = static_cast<VecObj&>(o_);
      if(!v->move_assign(*o.v)) harness_error("vector cannot be assigned");
      Pause pp;
      p = o.p;
      md = std::make_shared<VModel>(*o.md);
      dead = false;
    }
  };

  // What operators were made from
  template <class E> struct Origin {
    MHS m;
    E e;
  };
  template <class E> static std::shared_ptr<void> origin(MHS const& m, E const& e) {
    Pause p;
    return std::make_shared<Origin<E>>(Origin<E>{m, e});
  }

  Plan const& plan;
  ObjPtr s[NS];
  std::vector<int> types;
  const char* what = "";

  explicit Run(Plan const& p) : plan(p) {
    for(int t = 0; t < NTYPES; ++t)
      if(p.cfg[0] >> t & 1) types.push_back(t);
    if(types.empty()) types.push_back(T_X);
  }

  //---------------------------------------------------------------- values
  static std::string rd_m(M const& m) { return text(read_mono(m)); }
  static std::string rd_g(G const& g) { return text(read_gen(g)) + " " + g.to_string(); }
  static std::string rd_es(ES const& e) { return text(read_es(e)) + " " + std::to_string(e.n_bits()); }
  static std::string rd_hs(HSBox const& b) {
    HS& hs = const_cast<HS&>(b.hs);
    check_hs(hs, b.m, "Hilbert spaces", 6);
    return "";
  }
  static std::string rd_amp(u64 k, cplx c) {
    char b[80];
    snprintf(b, sizeof b, "%llu:(%.10g,%.10g) ", (unsigned long long)k, c.real() + 0.0, c.imag() + 0.0);
    return b;
  }
  static std::string rd_u(UVec<S> const& u) {
    std::string r;
    for(auto const& x : u.d)
      if(val(x.second) != 0.0) r += rd_amp(x.first, val(x.second));
    return r;
  }
  static std::string rd_vn(lc::var_number const& v) {
    std::ostringstream o;
    o << v;
    return o.str();
  }

  void all(int except, const char* when) {
    quiet([&] {
      for(int i = 0; i < NS; ++i)
        if(i != except && s[i] && !s[i]->dead) {
          std::string f = s[i]->read();
          if(f != s[i]->fp)
            fail("value-changed", "%s %s: %s in slot %d changed from %s to %s", what, when, type_name[s[i]->type], i, s[i]->fp.c_str(), f.c_str());
          log_str(f);
        }
    });
  }
  void settle(int i) { // remember the value
    if(s[i]) s[i]->fp = quiet([&] { return s[i]->read(); });
  }

  //---------------------------------------------------------------- inputs
  Letter letter(Rng& r) {
    Letter l;
    l.idx = int(r.below(4));
    l.mult = 0;
    switch(r.below(6)) {
    case 0: case 1: l.alg = lc::fermion; l.a = int(r.below(2)); break;
    case 2: l.alg = lc::boson; l.a = int(r.below(2)); break;
    case 3: l.alg = lc::spin; l.a = int(r.below(3)); l.mult = r.range(2, 4); break;
    case 4: l.alg = CLIFF; l.idx &= 1; l.a = int(r.below(2)); break;
    default: l.alg = TRI; l.idx &= 1; l.a = 0; break;
    }
    return l;
  }
  Word word(Rng& r, int n) {
    Word w;
    for(int k = int(r.below(u64(n + 1))); k > 0; --k) w.push_back(letter(r));
    return w;
  }
  static cplx number(Rng& r, bool re) {
    static const double v[] = {1, -1, 2, 0.5, 3, -0.5, -2, 1};
    return cplx(v[r.below(8)], re || r.chance(1, 2) ? 0 : v[r.below(8)]);
  }
  template <class E, class C> E expr(Rng& r, int terms, int len) {
    E e;
    for(int k = r.range(1, terms); k > 0; --k) e += E(from_c<C>::make(number(r, from_c<C>::real)), make_mono<I...>(word(r, len)));
    return e;
  }
  MHS small_space(Rng& r, int bits) {
    MHS m;
    for(int k = r.range(1, 4); k > 0; --k) {
      SD d = random_space(r, 3, 15, 4);
      if(d.alg < 0 && d.par < 2) d.par = 2;
      MHS t = m;
      t.insert(d);
      if(t.bits() <= bits) m = t;
    }
    if(m.es.empty()) m.insert(SD{lc::fermion, 0, 2});
    return m;
  }
  std::shared_ptr<HSBox> box(MHS const& m) {
    auto b = std::make_shared<HSBox>();
    b->m = m;
    for(auto const& d : m.es) b->hs.add(*make_es<I...>(d));
    return b;
  }
  X expr_on(Rng& r, MHS const& m, int terms) {
    X e;
    for(int k = r.range(1, terms); k > 0; --k) {
      Word w;
      for(int q = r.range(1, 3); q > 0; --q) w.push_back(letter_on(r, m));
      e += X(from_c<S>::make(number(r, real)), make_mono<I...>(w));
    }
    return e;
  }
  template <class T> static ObjT<T>& as(Obj& o) { return dynamic_cast<ObjT<T>&>(o); }

  std::function<std::string(Op_t const&)> op_reader(MHS const& m) {
    std::vector<u64> st;
    for(u64 k = 0; k < m.dim() && k < 12; ++k) st.push_back(m.state(k * 5 % m.dim()));
    u64 n = u64(1) << m.bits();
    return [st, n](Op_t const& op) {
      std::string r;
      for(u64 x : st) {
        UVec<S> a(n), b(n);
        a.d.emplace(x, from_c<S>::make(1));
        op(a, b);
        r += "|" + std::to_string(x) + "> -> " + rd_u(b);
      }
      return r;
    };
  }
  std::function<std::string(Par_t const&)> par_reader(MHS const& m) {
    std::vector<u64> st;
    for(u64 k = 0; k < m.dim() && k < 8; ++k) st.push_back(m.state(k * 5 % m.dim()));
    u64 n = u64(1) << m.bits();
    return [st, n](Par_t const& op) {
      std::string r;
      for(u64 x : st) {
        UVec<S> a(n), b(n);
        a.d.emplace(x, from_c<S>::make(1));
        op(a, b, 3.0);
        r += "|" + std::to_string(x) + "> -> " + rd_u(b);
      }
      return r;
    };
  }
  static std::string rd_map(lc::basis_mapper const& b) {
    std::vector<std::pair<u64, u64>> v(b.map().begin(), b.map().end());
    std::sort(v.begin(), v.end());
    std::string r = std::to_string(b.size()) + ": ";
    for(auto const& x : v) r += std::to_string(x.first) + ">" + std::to_string(x.second) + " ";
    return r;
  }
  std::function<std::string(SP const&)> sp_reader(MHS const& m) {
    std::vector<u64> st;
    for(u64 k = 0; k < m.dim(); ++k) st.push_back(m.state(k));
    return [st](SP const& p) {
      std::string r = std::to_string(p.n_subspaces()) + "/" + std::to_string(p.dim()) + ": ";
      for(u64 x : st) r += std::to_string(p[x]) + " ";
      return r;
    };
  }

  template <class T, class U> static ObjPtr obj(int t, U&& u, typename Reader<T>::type rd, std::shared_ptr<void> k = nullptr) {
    return ObjPtr(new ObjT<T>(t, std::forward<U>(u), std::move(rd), std::move(k)));
  }

  // library calls that create an object (harness data is prepared outside of it)
  bool create(Op const& op, int i, int type, Rng& r) {
    ObjPtr n;
    auto failed = [&] { all(-1, "failed"); };
    if(g.verbose) trace("   a new %s", type_name[type]);
    auto go = [&](auto const& f) { return perform(op, [&] { n = f(); }, failed, type == T_VEC); };
    bool ok = false;
    switch(type) {
    case T_X: {
      std::vector<std::pair<S, M>> terms;
      for(int k = r.range(1, 4); k > 0; --k) terms.emplace_back(from_c<S>::make(number(r, real)), make_mono<I...>(word(r, 3)));
      ok = go([&] {
        X e;
        for(auto const& t : terms) e += X(t.first, t.second);
        return obj<X>(T_X, std::move(e), [](X const& x) { return text(read_expr(x)); });
      });
      break;
    }
    case T_XR: {
      XR e0 = expr<XR, R>(r, 3, 3);
      ok = go([&] { return obj<XR>(T_XR, e0, [](XR const& x) { return text(read_expr(x)); }); });
      break;
    }
    case T_M: {
      M m0 = make_mono<I...>(word(r, 5));
      ok = go([&] { return obj<M>(T_M, m0, rd_m); });
      break;
    }
    case T_GF: {
      auto t = Indices<I...>::make(int(r.below(4)));
      bool dg = r.chance(1, 2);
      typedef lc::generator_fermion<I...> GF;
      ok = go([&] { return obj<GF>(T_GF, GF(dg, t), rd_g); });
      break;
    }
    case T_GB: {
      auto t = Indices<I...>::make(int(r.below(4)));
      bool dg = r.chance(1, 2);
      typedef lc::generator_boson<I...> GB;
      ok = go([&] { return obj<GB>(T_GB, GB(dg, t), rd_g); });
      break;
    }
    case T_GS: {
      auto t = Indices<I...>::make(int(r.below(4)));
      double sp = double(r.range(1, 4)) / 2;
      int c = int(r.below(3));
      typedef lc::generator_spin<I...> GS;
      ok = go([&] { return obj<GS>(T_GS, GS(sp, lc::spin_component(c), t), rd_g); });
      break;
    }
    case T_EF: {
      auto t = Indices<I...>::make(int(r.below(4)));
      typedef lc::elementary_space_fermion<I...> E;
      ok = go([&] { return obj<E>(T_EF, E(t), rd_es); });
      break;
    }
    case T_EB: {
      auto t = Indices<I...>::make(int(r.below(4)));
      u64 d = u64(r.range(1, 40));
      typedef lc::elementary_space_boson<I...> E;
      ok = go([&] { return obj<E>(T_EB, E(d, t), rd_es); });
      break;
    }
    case T_ESPIN: {
      auto t = Indices<I...>::make(int(r.below(4)));
      double sp = double(r.range(1, 7)) / 2;
      typedef lc::elementary_space_spin<I...> E;
      ok = go([&] { return obj<E>(T_ESPIN, E(sp, t), rd_es); });
      break;
    }
    case T_EP: {
      SD d = random_space(r, 3, 15, 5);
      ok = go([&] { return obj<EsPtr>(T_EP, EsPtr(make_es<I...>(d)), [](EsPtr const& e) { return rd_es(*e.p); }); });
      break;
    }
    case T_HS: {
      MHS m = small_space(r, 12);
      std::vector<std::unique_ptr<ES>> es;
      for(auto const& d : m.es) es.push_back(make_es<I...>(d));
      std::reverse(es.begin(), es.end());
      ok = go([&] {
        HSBox b;
        for(auto const& e : es) b.hs.add(*e);
        b.m = m;
        return obj<HSBox>(T_HS, std::move(b), rd_hs);
      });
      break;
    }
    case T_OP: {
      MHS m = small_space(r, 7);
      auto h = box(m);
      auto e = std::unique_ptr<X>(new X(expr_on(r, m, 4)));
      auto rd = op_reader(m);
      auto from = origin(m, *e);
      ok = go([&] { return obj<Op_t>(T_OP, Op_t(*e, h->hs), rd, from); });
      break; // Hilbert space and expression disappear here
    }
    case T_PAR: {
      MHS m = small_space(r, 7);
      auto h = box(m);
      XP e;
      for(int k = r.range(1, 3); k > 0; --k) {
        Word w;
        for(int q = r.range(1, 3); q > 0; --q) w.push_back(letter_on(r, m));
        e += XP(PCoef<S>(number(r, true), number(r, true), number(r, true)), make_mono<I...>(w));
      }
      auto rd = par_reader(m);
      auto from = origin(m, e);
      ok = go([&] { return obj<Par_t>(T_PAR, Par_t(e, h->hs), rd, from); });
      break;
    }
    case T_SP: {
      MHS m = small_space(r, 6);
      auto h = box(m);
      Op_t o(expr_on(r, m, 3), h->hs);
      auto rd = sp_reader(m);
      ok = go([&] { return obj<SP>(T_SP, SP(o, h->hs), rd, h); });
      break;
    }
    case T_BM: {
      MHS m = small_space(r, 6);
      auto h = box(m);
      Op_t o(expr_on(r, m, 3), h->hs);
      int kind = int(r.below(3));
      std::vector<Op_t> two(2, o);
      std::vector<lc::sv_index_type> st;
      for(u64 k = 0; k < m.dim(); ++k)
        if(r.chance(2, 3)) st.push_back(m.state(k));
      ok = go([&] {
        if(kind == 0) return obj<lc::basis_mapper>(T_BM, lc::basis_mapper(st), rd_map);
        if(kind == 1) return obj<lc::basis_mapper>(T_BM, lc::basis_mapper(o, h->hs), rd_map);
        return obj<lc::basis_mapper>(T_BM, lc::basis_mapper(two, h->hs, 1), rd_map);
      });
      break;
    }
    case T_VEC: {
      std::unique_ptr<VS> vs(new VS(r, int(r.below(2)), 15));
      int k = int(r.below(u64(VS::n_kinds())));
      if(r.chance(1, 2))
        while(VS::kind(k).ref) k = int(r.below(u64(VS::n_kinds())));
      if(!vs->possible(k)) return false;
      typename VS::Proto p = vs->prepare(r, k);
      if(p.k < 0 || p.model->keys.empty()) return false;
      ok = go([&] { return ObjPtr(new VecObj(vs->build(p), p)); });
      if(ok) vs->check_slots(p, *static_cast<VecObj&>(*n).v);
      break; // the Hilbert space disappears here
    }
    case T_LF: {
      typedef lc::linear_function<M> LF;
      std::vector<std::pair<M, lc::var_number>> terms;
      for(int k = r.range(0, 3); k > 0; --k) terms.emplace_back(make_mono<I...>(word(r, 3)), lc::var_number(r.range(1, 9), 2));
      int c = r.range(-3, 3);
      ok = go([&] {
        return obj<LF>(T_LF, LF(lc::var_number(c), terms), [](LF const& f) {
          std::string t = rd_vn(f.const_term);
          for(auto const& x : f.terms) t += " + " + rd_vn(x.second) + rd_m(x.first);
          return t;
        });
      });
      break;
    }
    case T_LG: {
      typedef lc::linear_function<std::shared_ptr<const G>> LF;
      Letter l = letter(r);
      auto g0 = make_gen<I...>(l);
      int how = int(r.below(3));
      ok = go([&] {
        LF f;
        if(how == 0) g0->conj(f);
        if(how == 1) f.set(lc::var_number(2), g0, lc::var_number(1, 3));
        if(how == 2) f = LF(lc::var_number(0.5), g0, 2, g0, -1);
        return obj<LF>(T_LG, std::move(f), [](LF const& f) {
          std::string t = rd_vn(f.const_term);
          for(auto const& x : f.terms) t += " + " + rd_vn(x.second) + rd_g(*x.first);
          return t;
        });
      });
      break;
    }
    case T_DYN: {
      int id = int(r.below(N_IDX));
      ok = go([&] {
        return obj<dyn_indices>(T_DYN, std::get<0>(Indices<dyn_indices>::make(id)), [](dyn_indices const& d) {
          std::ostringstream o;
          o << d;
          return o.str();
        });
      });
      break;
    }
    default: {
      int d = r.range(1, 6);
      auto g0 = make_gen<I...>(Letter{lc::boson, int(r.below(3)), 1, 0});
      typedef lc::boson_es_constructor BC;
      ok = go([&] { return obj<BC>(T_BEC, BC(d), [g0](BC const& c) { return rd_es(*c(*g0)); }); });
    }
    }
    if(ok) {
      s[i] = std::move(n);
      settle(i);
      if(type == T_OP || type == T_VEC || type == T_BM) probe(70);
    }
    return ok;
  }

  // an expression with the same terms that shares nothing with the original
  template <class E, class C> static E rebuilt(E const& e) {
    E r;
    for(auto const& t : e.get_monomials()) r += E(from_c<C>::make(val(t.second)), make_mono<I...>(read_mono(t.first)));
    return r;
  }
  static bool too_big(X const& x) {
    if(x.get_monomials().size() > 5) return true;
    for(auto const& t : x.get_monomials())
      if(t.first.size() > 3 || std::abs(val(t.second)) > 1e3) return true;
    return false;
  }

  // in-place operations in which the object is its own argument
  void selfref(Op const& op, int i, Rng& r) {
    if(s[i]->type != T_X) return;
    X& x = as<X>(*s[i]).v;
    if(too_big(x) || x.get_monomials().empty()) return;
    std::size_t k = r.below(x.get_monomials().size());
    int var = op.a[5] % 14;
    Poly expect;
    quiet([&] {
      X a = rebuilt<X, S>(x), b = rebuilt<X, S>(x);
      auto it = b.get_monomials().begin();
      std::advance(it, long(k));
      S c = it->second;
      M mo = it->first;
      switch(var) {
      case 0: a += b; break;
      case 1: a -= b; break;
      case 2: a *= b; break;
      case 3: case 4: a *= c; break;
      case 5: a += c; break;
      case 6: a -= c; break;
      case 7: a = a * b + b; break;
      case 8: a = X(c, mo); break;
      case 9: a = conj(b); break;
      case 10: a = c * b; break;
      case 11: a += X(c, mo); break;
      case 12: a = -b; break;
      default: a = b;
      }
      expect = read_expr(a);
    });
    if(g.verbose) trace("   %d on %s gives %s", var, s[i]->fp.c_str(), text(expect).c_str());
    auto at = [&]() -> typename X::monomials_map_t::value_type& {
      auto it = x.get_monomials().begin();
      std::advance(it, long(k));
      return *it;
    };
    X start = quiet([&] { return rebuilt<X, S>(x); });
    bool ok = perform(
        op,
        [&] {
          switch(var) {
          case 0: x += x; break;
          case 1: x -= x; break;
          case 2: x *= x; break;
          case 3: case 4: x *= at().second; break;
          case 5: x += at().second; break;
          case 6: x -= at().second; break;
          case 7: x = x * x + x; break;
          case 8: x = X(at().second, at().first); break;
          case 9: x = conj(x); break;
          case 10: x = at().second * x; break;
          case 11: x += X(at().second, at().first); break;
          case 12: x = -x; break;
          default: {
            X const& y = x;
            x = y;
          }
          }
        },
        [&] {
          all(i, "failed");
          quiet([&] { x = start; }); // the interrupted value is C04's business
        });
    if(!ok) {
      settle(i);
      return;
    }
    Poly got = read_expr(x);
    if(!same(got, expect)) fail("wrong-value", "self-referential operation %d gives %s instead of %s", var, text(got).c_str(), text(expect).c_str());
    settle(i);
    all(i, "completed");
    probe(71);
  }

  static std::map<u64, cplx> apply(Op_t const& o, u64 st, u64 n) {
    UVec<S> a(n), b(n);
    a.d.emplace(st, from_c<S>::make(1));
    o(a, b);
    return amps(b);
  }
  static std::map<u64, cplx> apply(Par_t const& o, u64 st, u64 n) {
    UVec<S> a(n), b(n);
    a.d.emplace(st, from_c<S>::make(1));
    o(a, b, 3.0);
    return amps(b);
  }
  static std::map<u64, cplx> amps(UVec<S> const& u) {
    std::map<u64, cplx> r;
    for(auto const& x : u.d) r[x.first] = val(x.second);
    return r;
  }
  // extends an operator by one more monomial
  template <class O, class E> bool extend(Op const& op, int i, E const& more) {
    auto& x = as<O>(*s[i]);
    auto const& from = *std::static_pointer_cast<Origin<E>>(x.keep);
    if(from.e.size() > 8 || more.size() == 0) return true;
    auto const& t = *more.get_monomials().begin();
    auto h = quiet([&] { return box(from.m); });
    lc::monomial_action<lc::fermion, lc::boson, lc::spin, 1, 3, 4> act =
        quiet([&] { return lc::monomial_action<lc::fermion, lc::boson, lc::spin, 1, 3, 4>(std::make_pair(t.first.begin(), t.first.end()), h->hs); });
    if(!perform(op, [&] { x.v.add_monomial_action(act, t.second); }, [&] { all(-1, "failed"); })) return false;
    quiet([&] {
      E sum = from.e + E(t.second, t.first);
      O whole(sum, h->hs);
      u64 n = u64(1) << from.m.bits();
      for(u64 k = 0; k < from.m.dim() && k < 24; ++k) {
        u64 st = from.m.state(k);
        auto got = apply(x.v, st, n), want = apply(whole, st, n);
        for(auto const& q : got) want[q.first] -= q.second;
        for(auto const& q : want)
          if(std::abs(q.second) > 1e-9) fail("wrong-value", "extended operator acts wrongly on state %llu", (unsigned long long)st);
      }
      x.keep = origin(from.m, sum);
    });
    return true;
  }

  void modify(Op const& op, int i, Rng& r) {
    Obj& o = *s[i];
    auto failed = [&] { all(i, "failed"); };
    bool ok = true;
    switch(o.type) {
    case T_X: {
      X& x = as<X>(o).v;
      X start = quiet([&] { return rebuilt<X, S>(x); });
      if(too_big(x)) {
        x.clear();
        start.clear();
      }
      X y = quiet([&] { return expr<X, S>(r, 3, 3); });
      int k = op.a[5] % 4;
      ok = perform(
          op,
          [&] {
            if(k == 0) x += y;
            if(k == 1) x -= y;
            if(k == 2) x *= y;
            if(k == 3) x.clear();
          },
          [&] {
            failed();
            quiet([&] { x = start; });
          });
      break;
    }
    case T_M: {
      M& m = as<M>(o).v;
      if(m.size() > 8) return;
      M t = quiet([&] { return make_mono<I...>(word(r, 3)); });
      M start = quiet([&] { return make_mono<I...>(read_mono(m)); });
      bool self = !m.empty() && r.chance(1, 2); // of the monomial, or of a generator of its own
      bool one = self && r.chance(1, 3);
      Word e = quiet([&] {
        Word w = read_mono(start), x = self ? w : read_mono(t);
        if(one) x.resize(1);
        w.insert(w.end(), x.begin(), x.end());
        return w;
      });
      ok = perform(
          op,
          [&] {
            if(one)
              m.append(m[0]);
            else
              m.append(self ? m : t);
          },
          [&] {
            failed();
            quiet([&] { m = start; });
          });
      if(ok && quiet([&] { return read_mono(m); }) != e) fail("wrong-value", "appending to a monomial: %s instead of %s", text(read_mono(m)).c_str(), text(e).c_str());
      break;
    }
    case T_HS: {
      HSBox& b = as<HSBox>(o).v;
      SD d = random_space(r, 4, 15, 4);
      if(d.alg < 0 && d.par < 2) d.par = 2;
      if(b.m.find(d) >= 0 || b.m.bits() + n_bits(d) > 14) return;
      auto es = make_es<I...>(d);
      ok = perform(op, [&] { b.hs.add(*es); }, [&] { all(-1, "failed"); });
      if(ok) b.m.insert(d);
      break;
    }
    case T_OP: {
      X e = quiet([&] { return expr_on(r, std::static_pointer_cast<Origin<X>>(as<Op_t>(o).keep)->m, 1); });
      ok = extend<Op_t, X>(op, i, e);
      break;
    }
    case T_PAR: {
      auto const& m = std::static_pointer_cast<Origin<XP>>(as<Par_t>(o).keep)->m;
      XP e = quiet([&] { return XP(PCoef<S>(number(r, true), number(r, true), number(r, true)), make_mono<I...>(Word(1, letter_on(r, m)))); });
      ok = extend<Par_t, XP>(op, i, e);
      break;
    }
    case T_SP: {
      SP& p = as<SP>(o).v;
      auto& h = *std::static_pointer_cast<HSBox>(as<SP>(o).keep);
      X e = quiet([&] { return expr_on(r, h.m, 2); });
      Op_t a = quiet([&] { return Op_t(e, h.hs); }), b = quiet([&] { return Op_t(conj(e), h.hs); });
      ok = perform(op, [&] { p.merge_subspaces(a, b); }, [&] { all(-1, "failed"); });
      break;
    }
    case T_VEC: {
      auto& v = static_cast<VecObj&>(o);
      if(!v.v->writable()) return;
      u64 n = v.md->keys[r.below(v.md->keys.size())];
      cplx c(r.range(1, 5) / 2.0, real ? 0 : r.range(-2, 2));
      S x = from_c<S>::make(c);
      ok = perform(op, [&] { v.v->add(n, x); }, [&] { all(-1, "failed"); });
      if(ok) v.md->add(n, c);
      break;
    }
    case T_DYN: case T_LF: case T_LG: {
      ok = create(op, i, o.type, r);
      break;
    }
    default: return;
    }
    settle(i);
    all(i, ok ? "completed" : "given up");
  }

  // objects made from objects
  void derive(Op const& op, int i, int j, Rng& r) {
    Obj& o = *s[i];
    ObjPtr n;
    auto failed = [&] { all(-1, "failed"); };
    bool ok = false;
    switch(o.type) {
    case T_X: {
      X const& x = as<X>(o).v;
      switch(op.a[5] % 5) {
      case 0: { // real parts
        ok = perform(op, [&] { n = obj<X>(T_X, conj(x), [](X const& x) { return text(read_expr(x)); }); }, failed);
        break;
      }
      case 1: { // a monomial
        if(x.get_monomials().empty()) return;
        std::size_t k = r.below(x.get_monomials().size());
        auto it = x.get_monomials().begin();
        std::advance(it, long(k));
        ok = perform(op, [&] { n = obj<M>(T_M, it->first, rd_m); }, failed);
        break;
      }
      case 2: { // a Hilbert space
        MHS m;
        for(auto const& t : read_expr(x))
          for(auto const& l : t.first) {
            SD d = l.alg == lc::boson ? SD{l.alg, l.idx, 2} : Factory<I...>::space_of(l, 2);
            if(m.find(d) < 0) m.insert(d);
          }
        if(m.bits() > 20) return;
        ok = perform(
            op,
            [&] {
              HSBox b;
              b.hs = HS(x, lc::es_constructor<lc::fermion, lc::boson, lc::spin, 1, 3, 4>(2));
              b.m = m;
              n = obj<HSBox>(T_HS, std::move(b), rd_hs);
            },
            failed);
        break;
      }
      case 3: { // an operator over the smallest space
        MHS m;
        for(auto const& t : read_expr(x))
          for(auto const& l : t.first) {
            SD d = l.alg == lc::boson ? SD{l.alg, l.idx, 2} : Factory<I...>::space_of(l, 2);
            if(m.find(d) < 0) m.insert(d);
          }
        if(m.bits() > 8 || m.es.empty()) return;
        auto h = box(m);
        auto rd = op_reader(m);
        auto from = origin(m, x);
        ok = perform(op, [&] { n = obj<Op_t>(T_OP, Op_t(x, h->hs), rd, from); }, failed);
        break;
      }
      default: {
        ok = perform(op, [&] { n = obj<X>(T_X, transform(x, [](M const& m, S const& c) -> S { return c; }), [](X const& x) { return text(read_expr(x)); }); },
                     failed);
      }
      }
      break;
    }
    case T_XR: {
      XR const& x = as<XR>(o).v;
      ok = perform(op, [&] { n = obj<X>(T_X, X(x), [](X const& x) { return text(read_expr(x)); }); }, failed);
      break;
    }
    case T_M: {
      M const& m = as<M>(o).v;
      if(m.size() > 5) return;
      S c = from_c<S>::make(number(r, real));
      if(op.a[5] & 1)
        ok = perform(op, [&] { n = obj<X>(T_X, X(c, m), [](X const& x) { return text(read_expr(x)); }); }, failed);
      else
        ok = perform(op, [&] { n = obj<M>(T_M, concatenate(m, m), rd_m); }, failed);
      break;
    }
    case T_HS: {
      HSBox const& b = as<HSBox>(o).v;
      if(b.m.bits() > 7 || b.m.es.empty()) return;
      X e = quiet([&] { return expr_on(r, b.m, 3); });
      if(op.a[5] & 1) {
        auto rd = op_reader(b.m);
        auto from = origin(b.m, e);
        ok = perform(op, [&] { n = obj<Op_t>(T_OP, Op_t(e, b.hs), rd, from); }, failed);
      } else {
        Op_t a = quiet([&] { return Op_t(e, b.hs); });
        ok = perform(op, [&] { n = obj<lc::basis_mapper>(T_BM, lc::basis_mapper(a, b.hs), rd_map); }, failed);
      }
      break;
    }
    default: return;
    }
    if(!ok) return;
    s[j] = std::move(n);
    settle(j);
    all(j, "completed");
  }

  void step(Op const& op) {
    what = code_name[op.code];
    int i = op.a[0] % NS, j = op.a[1] % NS, var = op.a[5];
    Rng r(u64(op.a[2]) * 77777 + u64(op.a[3]));
    if(g.verbose)
      trace("op %d %s slots %d (%s), %d (%s)", sh->cur_op, what, i, s[i] ? type_name[s[i]->type] : "empty", j,
            s[j] ? type_name[s[j]->type] : "empty");
    auto usable = [&](int k) { return s[k] && !s[k]->dead; };
    auto failed = [&] { all(-1, "failed"); };
    switch(op.code) {
    case CREATE: create(op, i, types[r.below(types.size())], r); break;
    case COPY: {
      if(!usable(i)) return;
      ObjPtr n;
      if(perform(op, [&] { n = s[i]->copy(); }, failed)) {
        s[j] = std::move(n); // if i == j, the original is destroyed
        settle(j);
      }
      break;
    }
    case ASSIGN: {
      // look for a pair of assignable objects
      for(int k = 0; k < NS && !(usable(i) && s[i]->can_assign() && s[j] && s[j]->like(*s[i]) && i != j); ++k) j = (j + 1) % NS;
      if(!(usable(i) && s[i]->can_assign() && s[j] && s[j]->like(*s[i]) && i != j)) return;
      if(perform(op, [&] { s[j]->assign(*s[i]); },
                 [&] {
                   if(s[j]->type == T_HS && !s[j]->dead) all(-1, "failed");
                   all(j, "failed");
                 })) {
        s[j]->fp = s[i]->fp;
        probe(72);
      } else
        s[j].reset(); // whatever it contains can be destroyed
      break;
    }
    case MOVE: {
      if(!usable(i)) return;
      ObjPtr n;
      quiet([&] { n = s[i]->move(); });
      n->fp = s[i]->fp;
      s[i]->dead = true;
      if(s[i]->type == T_VEC || var & 1 || i == j) s[i].reset();
      s[j] = std::move(n);
      break;
    }
    case MOVE_ASSIGN: {
      for(int k = 0; k < NS && !(usable(i) && s[i]->can_assign() && s[j] && s[j]->like(*s[i]) && i != j); ++k) j = (j + 1) % NS;
      if(!(usable(i) && s[i]->can_assign() && s[j] && s[j]->like(*s[i]) && i != j)) return;
      quiet([&] { s[j]->move_assign(*s[i]); });
      s[j]->fp = s[i]->fp;
      s[i]->dead = true;
      if(s[i]->type == T_VEC || var & 1) s[i].reset();
      break;
    }
    case SELF: {
      if(!usable(i) || !s[i]->can_assign()) return;
      ObjPtr keep = quiet([&] { return s[i]->copy(); });
      if(!perform(op, [&] { s[i]->assign(*s[i]); },
                  [&] {
                    all(i, "failed");
                    if(s[i]->type == T_X) quiet([&] { s[i]->assign(*keep); });
                  }))
        s[i].reset();
      break;
    }
    case SWAP: {
      if(!usable(i) || !usable(j) || !s[i]->can_assign() || !s[j]->like(*s[i])) return;
      if(i == j) {
        ObjPtr t;
        quiet([&] { t = s[i]->move(); });
        quiet([&] { s[i]->move_assign(*t); });
      } else {
        quiet([&] {
          ObjPtr t = s[i]->move();
          t->fp = s[i]->fp;
          s[i]->move_assign(*s[j]);
          s[i]->fp = s[j]->fp;
          s[j]->move_assign(*t);
          s[j]->fp = t->fp;
        });
      }
      break;
    }
    case DESTROY: s[i].reset(); break;
    case MODIFY:
      for(int k = 0; k < NS && !usable(i); ++k) i = (i + 1) % NS;
      if(usable(i)) modify(op, i, r);
      break;
    case SELFREF:
      for(int k = 0; k < NS && !(usable(i) && s[i]->type == T_X); ++k) i = (i + 1) % NS;
      if(usable(i)) selfref(op, i, r);
      break;
    case DERIVE:
      for(int k = 0; k < NS && !usable(i); ++k) i = (i + 1) % NS;
      if(usable(i)) {
        derive(op, i, j, r);
        if(var & 4 && i != j) s[i].reset(); // the source disappears
      }
      break;
    case COMBINE: {
      for(int k = 0; k < NS && !(usable(i) && s[i]->type == T_X); ++k) i = (i + 1) % NS;
      for(int k = 0; k < NS && !(usable(j) && s[j]->type == T_X); ++k) j = (j + 1) % NS;
      if(!usable(i) || !usable(j) || s[i]->type != T_X || s[j]->type != T_X) return;
      X &a = as<X>(*s[i]).v, &b = as<X>(*s[j]).v;
      if(too_big(a) || too_big(b)) return;
      ObjPtr n;
      if(perform(op,
                 [&] {
                   n = obj<X>(T_X, var % 3 == 0 ? a * b : var % 3 == 1 ? a + b : a * b - b * a, [](X const& x) { return text(read_expr(x)); });
                 },
                 failed)) {
        s[op.a[4] % NS] = std::move(n);
        settle(op.a[4] % NS);
      }
      break;
    }
    }
    all(-1, "completed");
  }
#ifdef SIM_MT
  struct Common : Originals {
    ObjPtr s[NS];
  };
  static std::shared_ptr<Originals> originals(u64 seed) {
    Plan p;
    p.cfg = {(1 << NTYPES) - 1};
    Run r(p);
    Rng q(seed);
    Op op;
    for(int i = 0; i < NS; ++i) r.create(op, i, q.chance(1, 3) ? int(T_X) : int(q.below(NTYPES)), q);
    auto c = std::make_shared<Common>();
    for(int i = 0; i < NS; ++i)
      if(r.s[i] && !(r.s[i]->type == T_VEC && VS::kind(static_cast<VecObj&>(*r.s[i]).p.k).ref)) c->s[i] = std::move(r.s[i]);
    return c;
  }
  void inherit() {
    auto const* c = dynamic_cast<Common const*>(my_originals);
    if(!c) return;
    for(int i = 0; i < NS; ++i)
      if(c->s[i]) {
        s[i] = c->s[i]->copy();
        s[i]->fp = c->s[i]->fp;
      }
    all(-1, "inherited");
  }
#endif
  void run() {
#ifdef SIM_MT
    inherit();
#endif
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
    // destruction in a seeded order, the rest is looked at in between
    what = "destruction";
    Rng r(plan.seed);
    for(int k = 0; k < NS; ++k) {
      int i = int(r.below(NS));
      for(int q = 0; q < NS && !s[i]; ++q) i = (i + 1) % NS;
      s[i].reset();
      all(-1, "completed");
    }
  }
};

void gen(Rng& r, Plan& p, int size) {
  int mask = 0;
  int nt = r.range(1, 4);
  for(int k = 0; k < nt; ++k) mask |= 1 << r.below(NTYPES);
  if(r.chance(2, 3)) mask |= 1 << T_X;
  if(r.chance(1, 3)) mask |= 1 << T_VEC;
  if(r.chance(1, 3)) mask |= 1 << T_HS;
  if(r.chance(1, 6)) mask = (1 << NTYPES) - 1;
  p.cfg = {mask};
  int n = size ? size : r.range(5, 26);
  static const int weight[NCODES] = {10, 6, 6, 3, 4, 3, 2, 4, 7, 5, 5, 3};
  int sum = 0;
  for(int w : weight) sum += w;
  for(int i = 0; i < n; ++i) {
    Op o;
    int k = int(r.below(u64(sum)));
    for(o.code = 0; k >= weight[o.code]; ++o.code) k -= weight[o.code];
    if(i < 2) o.code = CREATE;
    for(int& a : o.a) a = int(r.below(1 << 15));
    if(i >= 2 && r.chance(1, 2)) o.a[0] = p.ops[r.below(u64(i))].a[0];
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<Scal<0>, Scal<2>, UIdx> TheRun;
#define SIM_NAME "O0"
#elif SIM_CONF == 1
typedef Run<double, double, int> TheRun;
#define SIM_NAME "O1"
#else
typedef Run<cplx, double, dyn_indices> TheRun;
#define SIM_NAME "O2"
#endif
#ifdef SIM_MT
struct Reg {
  Reg() { make_originals[SIM_CONF] = &TheRun::originals; }
} reg;
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  return std::string(code_name[o.code % NCODES]) + " slots " + std::to_string(o.a[0] % 8) + " " + std::to_string(o.a[1] % 8);
}
} // namespace
SIM_SCENARIO(O, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_SCALAR | 1u << K_GEN | 1u << K_IDX | 1u << K_ES | 1u << K_ESC, describe)
} // namespace sim
