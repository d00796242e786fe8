// Scenario L: application of operators to state vectors and views, interrupted
// at arbitrary points, nested and repeated.
#include "ops.hpp"

namespace sim {
// A call back into the harness from the traversal of a user vector
static SIM_TLS void (*hook)(void*) = nullptr;
static SIM_TLS void* hook_arg = nullptr;

template <class S> struct HVec : UVec<S> { // user vector that calls the hook
  using UVec<S>::UVec;
};
template <class S> HVec<S> zeros_like(HVec<S> const& v) { return HVec<S>(v.n); }
template <class S, class F> void foreach(HVec<S> const& v, F&& f) {
  for(auto const& p : v.d) {
    point(K_VEC);
    if(hook) hook(hook_arg);
    if(!lc::scalar_traits<S>::is_zero(p.second)) f(p.first, p.second);
  }
}

} // namespace sim

namespace libcommute {
template <class S> struct element_type<sim::HVec<S>> {
  using type = S;
};
} // namespace libcommute

namespace sim {
namespace {

enum Code { FILL, MAKE_OP, MAKE_PAR, COPY_OP, APPLY, APPLY_RET, NEST, PAR_APPLY, PAR_RET, PAR_STORE, PAR_AT, COMPOSE, TINY, NCODES };
const char* const code_name[NCODES] = {"fill", "make-operator", "make-parametric", "copy-operator", "apply", "apply-return",
                                       "apply-nested", "apply-parametric", "parametric-return", "apply-and-store",
                                       "parametric-at", "compose", "apply-scaled"};
// vectors
enum Slot { D0, D1, P0, P1, U0, U1, C0, C1, Q0, Q1, NSLOTS };

template <class S, typename... I> struct Run {
  typedef lc::hilbert_space<I...> HS;
  typedef lc::expression<S, I...> X;
  typedef lc::expression<PCoef<S>, I...> XP;
  typedef lc::loperator<S, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Op_t;
  typedef lc::parametric_loperator<PCoef<S>, lc::fermion, lc::boson, lc::spin, 1, 3, 4> Par_t;
  typedef std::vector<S> DV;
  typedef lc::sparse_state_vector<S> PV;
  typedef UVec<S> UV;
  struct PTerm {
    Word w;
    cplx c[3];
  };
  enum { NOPS = 3, NPAR = 2, real = from_c<S>::real };

  Plan const& plan;
  MHS m;
  HS hs;
  u64 n = 0, dim = 0;
  bool huge = false;
  std::unique_ptr<DV> d[2], c[2], q[2];
  std::unique_ptr<PV> p[2];
  std::unique_ptr<UV> u[2];
  std::unique_ptr<lc::basis_mapper> mapper;
  Op_t ops[NOPS];
  Poly mops[NOPS];
  std::unique_ptr<Par_t> par[NPAR];
  std::vector<PTerm> mpar[NPAR];
  std::vector<S> buf;
  Amp model[NSLOTS];
  const char* what = "";

  explicit Run(Plan const& pl) : plan(pl) {
    Rng r(pl.seed ^ u64(pl.cfg[0]) * 7919);
    huge = pl.cfg[1] == 2;
    int ns = huge ? 12 : r.range(1, 5);
    u64 maxd = pl.cfg[1] == 0 ? 64 : 400;
    for(int k = 0; k < ns; ++k) {
      SD s = random_space(r, huge ? N_IDX : 3, pl.cfg[2], 9);
      if(huge && s.alg == lc::boson) s.par = r.chance(1, 2) ? r.range(2, 1500) : 1L << r.range(1, 11);
      if(huge && s.alg == lc::spin) s.par = r.range(2, 300);
      if(s.alg < 0 && s.par < 2) s.par = 2;
      MHS t = m;
      t.insert(s);
      if(t.bits() > (huge ? 60 : 10) || (!huge && t.dim() > maxd)) continue;
      m = t;
    }
    if(m.es.empty()) m.insert(SD{lc::fermion, 0, 2});
    for(auto const& s : m.es) hs.add(*make_es<I...>(s));
    n = hs.vec_size();
    dim = m.dim();
    if(n > 1024) huge = true;
    for(int i = 0; i < 2; ++i) {
      p[i].reset(new PV(n));
      u[i].reset(new UV(n));
      if(huge) continue;
      d[i].reset(new DV(n, from_c<S>::make(0)));
      c[i].reset(new DV(dim, from_c<S>::make(0)));
      q[i].reset(new DV(dim, from_c<S>::make(0)));
    }
    if(!huge) {
      std::vector<lc::sv_index_type> st;
      for(u64 k = 0; k < dim; ++k) st.push_back(m.state((k * 7 + 3) % dim)); // a permutation if 7 does not divide dim
      std::sort(st.begin(), st.end());
      st.erase(std::unique(st.begin(), st.end()), st.end());
      if(st.size() != dim) {
        st.clear();
        for(u64 k = dim; k-- > 0;) st.push_back(m.state(k));
      }
      mapper.reset(new lc::basis_mapper(st));
    }
  }

  //---------------------------------------------------------------- reading and writing vectors
  Amp rd(int s) {
    Amp a;
    switch(s) {
    case D0: case D1:
      for(u64 k = 0; k < n; ++k)
        if(val((*d[s - D0])[k]) != 0.0) a[k] = val((*d[s - D0])[k]);
      break;
    case P0: case P1:
      foreach(*p[s - P0], [&](u64 k, S const& x) {
        if(val(x) != 0.0) a[k] = val(x);
      });
      break;
    case U0: case U1:
      for(auto const& x : u[s - U0]->d)
        if(val(x.second) != 0.0) a[x.first] = val(x.second);
      break;
    case C0: case C1:
      for(u64 k = 0; k < dim; ++k)
        if(val((*c[s - C0])[k]) != 0.0) a[m.state(k)] = val((*c[s - C0])[k]);
      break;
    default:
      for(auto const& x : mapper->map())
        if(val((*q[s - Q0])[x.second]) != 0.0) a[x.first] = val((*q[s - Q0])[x.second]);
    }
    return a;
  }
  void wr(int s, u64 st, cplx x) {
    S v = from_c<S>::make(x);
    switch(s) {
    case D0: case D1: (*d[s - D0])[st] = v; break;
    case P0: case P1: (*p[s - P0])[st] = v; break;
    case U0: case U1:
      u[s - U0]->d.erase(st);
      u[s - U0]->d.emplace(st, v);
      break;
    case C0: case C1: (*c[s - C0])[m.number(st)] = v; break;
    default: (*q[s - Q0])[mapper->map().at(st)] = v;
    }
  }
  void zero(int s) {
    using lc::set_zeros;
    using sim::set_zeros;
    switch(s) {
    case D0: case D1: set_zeros(*d[s - D0]); break;
    case P0: case P1: set_zeros(*p[s - P0]); break;
    case U0: case U1: u[s - U0]->d.clear(); break;
    case C0: case C1: set_zeros(*c[s - C0]); break;
    default: set_zeros(*q[s - Q0]);
    }
  }
  u64 some_state(Rng& r) { return m.state(r.next() % dim); }
  void fill(int s, Rng& r, int cnt) {
    quiet([&] {
      zero(s);
      for(int k = 0; k < cnt; ++k) {
        cplx x(r.range(-3, 3) * 0.5 + 0.25, real ? 0 : r.range(-2, 2));
        wr(s, some_state(r), x);
      }
      model[s] = rd(s);
    });
  }

  //---------------------------------------------------------------- checks
  void slots(int except, int except2, const char* when) {
    for(int s = 0; s < NSLOTS; ++s) {
      if(s == except || s == except2 || (huge && s != P0 && s != P1 && s != U0 && s != U1)) continue;
      Amp a = rd(s);
      if(a != model[s])
        fail("vector-changed", "%s %s: vector %d changed from %s to %s", what, when, s, text(model[s]).c_str(), text(a).c_str());
    }
  }
  void operator_intact(int k, const char* when) {
    Rng r(plan.seed + u64(sh->cur_op) * 31);
    for(int t = 0; t < 2; ++t) {
      u64 st = some_state(r);
      PV in(n), out(n);
      in[st] = from_c<S>::make(1);
      ops[k](in, out);
      Amp a;
      foreach(out, [&](u64 i, S const& x) { a[i] = val(x); });
      Amp e = act(mops[k], m, st);
      if(!close(a, e))
        fail("operator-changed", "%s %s: operator %s now maps state %llu to %s instead of %s", what, when, text(mops[k]).c_str(),
             (unsigned long long)st, text(a).c_str(), text(e).c_str());
    }
  }
  void par_intact(int k, const char* when) {
    Rng r(plan.seed + u64(sh->cur_op) * 31);
    u64 st = some_state(r);
    PV in(n), out(n);
    in[st] = from_c<S>::make(1);
    (*par[k])(in, out, 1.5);
    Amp a;
    foreach(out, [&](u64 i, S const& x) { a[i] = val(x); });
    Amp e = act(at(k, 1.5), m, st);
    if(!close(a, e))
      fail("operator-changed", "%s %s: parametric operator %d now maps state %llu to %s instead of %s", what, when, k,
           (unsigned long long)st, text(a).c_str(), text(e).c_str());
  }
  void result(int s, Amp const& e) {
    Amp a = rd(s);
    if(!close(a, e))
      fail("wrong-result", "%s: the result is %s instead of %s", what, text(a).c_str(), text(e).c_str());
    for(auto const& x : a)
      if(!m.is_state(x.first)) {
        // rounding residues outside of the space are no excuse
        fail("wrong-result", "%s: amplitude of %llu, which is not a basis state", what, (unsigned long long)x.first);
      }
    if(s == P0 || s == P1) {
      PV const& v = *p[s - P0];
      if(v.n_nonzeros() != a.size()) fail("stored-zero", "%s: the sparse result stores vanishing amplitudes", what);
    }
    log_amp(a);
    model[s] = a;
  }
  void resync(int s) { model[s] = rd(s); }

  Poly at(int k, cplx x) {
    Poly r;
    for(auto const& t : mpar[k]) {
      cplx v = t.c[0] + t.c[1] * x + t.c[2] * x * x;
      if(real) v = v.real();
      r.emplace_back(t.w, v);
    }
    return r;
  }

  //---------------------------------------------------------------- calls
  // apply anything callable as f(src, dst) to slots
  template <class F> void on(int s, int t, F&& f) {
    auto src = [&](auto&& dst) {
      switch(s) {
      case D0: case D1: f(static_cast<DV const&>(*d[s - D0]), dst); break;
      case P0: case P1: f(static_cast<PV const&>(*p[s - P0]), dst); break;
      case U0: case U1: f(static_cast<UV const&>(*u[s - U0]), dst); break;
      default: harness_error("source %d", s);
      }
    };
    if(s >= C0) {
      if(s < Q0) {
        auto vs = lc::make_const_comp_state_view(*c[s - C0], hs);
        if(t >= C0 && t < Q0) {
          auto vt = lc::make_comp_state_view(*c[t - C0], hs);
          f(vs, vt);
        } else
          f(vs, *p[t & 1]);
      } else {
        auto vs = mapper->make_const_view(*q[s - Q0]);
        if(t >= Q0) {
          auto vt = mapper->make_view(*q[t - Q0]);
          f(vs, vt);
        } else
          f(vs, *p[t & 1]);
      }
      return;
    }
    switch(t) {
    case D0: case D1: src(*d[t - D0]); break;
    case P0: case P1: src(*p[t - P0]); break;
    default: src(*u[t - U0]); break;
    }
  }
  // chooses source and destination, different ones
  void choose(Op const& op, int& s, int& t) {
    if(huge) {
      s = P0 + op.a[0] % 4;
      t = P0 + op.a[1] % 4;
      if(s == t) t = P0 + (s - P0 + 1) % 4;
      return;
    }
    s = op.a[0] % NSLOTS;
    if(s < C0) {
      t = op.a[1] % C0;
      if(t == s) t = (s + 1) % C0;
    } else {
      t = op.a[1] % 3 ? (s ^ 1) : P0 + (op.a[1] & 1);
    }
  }
  void args(int k, cplx& x) { x = double(k % 5) - 1.5; }

  Word word(Rng& r) {
    Word w;
    int l = int(r.below(5));
    for(int k = 0; k < l; ++k)
      if(k && r.chance(1, 4))
        w.push_back(w.back());
      else
        w.push_back(letter_on(r, m));
    return w;
  }

  void step(Op const& op) {
    what = code_name[op.code];
    Rng r(u64(op.a[3]) * 65599 + u64(op.a[4]));
    int k = op.a[2] % NOPS, pk = op.a[2] % NPAR, var = op.a[5];
    if(g.verbose) trace("op %d %s: hs %s op%d = %s", sh->cur_op, what, text(m).c_str(), k, text(mops[k]).c_str());
    int s, t;
    choose(op, s, t);
    auto failed = [&] {
      operator_intact(k, "failed");
      resync(t);
      slots(-1, -1, "failed");
    };
    switch(op.code) {
    case FILL: fill(huge ? P0 + op.a[0] % 4 : op.a[0] % NSLOTS, r, 1 + var % 9); break;
    case MAKE_OP: make_op(op, r, k, var); break;
    case MAKE_PAR: make_par(op, r, pk, var); break;
    case COPY_OP: {
      int j = op.a[0] % NOPS;
      if(j == k) break;
      if(perform(
             op,
             [&] {
               Op_t x(ops[j]);
               Op_t y;
               y = x;
               ops[k] = std::move(y);
             },
             [&] {
               operator_intact(k, "failed");
               operator_intact(j, "failed");
             }))
        mops[k] = mops[j];
      operator_intact(k, "completed");
      operator_intact(j, "completed");
      break;
    }
    case APPLY: {
      Amp e = act(mops[k], m, model[s]);
      bool dn = perform(op, [&] { on(s, t, [&](auto const& a, auto& b) { ops[k](a, b); }); }, failed);
      if(dn)
        result(t, e);
      else
        failed();
      slots(-1, -1, "completed");
      break;
    }
    case APPLY_RET: {
      Amp e = act(mops[k], m, model[s]);
      bool star = var & 1;
      bool dn;
      switch(s) {
      case D0: case D1:
        t = s ^ 1;
        dn = perform(
            op,
            [&] {
              DV x = star ? ops[k] * *d[s - D0] : ops[k](*d[s - D0]);
              std::swap(x, *d[t - D0]);
            },
            failed);
        break;
      case P0: case P1:
        t = s ^ 1;
        dn = perform(
            op,
            [&] {
              PV x = star ? ops[k] * *p[s - P0] : ops[k](*p[s - P0]);
              std::swap(x, *p[t - P0]);
            },
            failed);
        break;
      case U0: case U1:
        t = s ^ 1;
        dn = perform(
            op,
            [&] {
              UV x = star ? ops[k] * *u[s - U0] : ops[k](*u[s - U0]);
              std::swap(x, *u[t - U0]);
            },
            failed);
        break;
      default: return;
      }
      if(dn) result(t, e);
      slots(-1, -1, "completed");
      break;
    }
    case NEST: nest(op, k, var); break;
    case COMPOSE: { // two applications through a buffer
      int k2 = (k + 1) % NOPS;
      s = P0;
      t = P1;
      Amp e = act(mops[k2], m, act(mops[k], m, model[s]));
      bool dn = perform(
          op,
          [&] {
            PV x = ops[k](*p[0]);
            ops[k2](x, *p[1]);
          },
          failed);
      if(dn) result(t, e);
      slots(-1, -1, "completed");
      break;
    }
    case TINY: tiny(op, k, var); break;
    default: parametric(op, s, t, pk, var);
    }
  }

  // small coefficients times small amplitudes: their products are below the
  // tolerance of is_zero(), but a dense result has to hold them
  void tiny(Op const& op, int k, int var) {
    if(huge) return;
    const double fo = std::ldexp(1.0, -(var % 25)), fv = std::ldexp(1.0, -(op.a[0] % 33));
    std::unique_ptr<Op_t> small;
    std::unique_ptr<DV> src, dst;
    quiet([&] {
      X x;
      for(auto const& t : mops[k]) x += X(from_c<S>::make(t.second * fo), make_mono<I...>(t.first));
      small.reset(new Op_t(x, hs));
      src.reset(new DV(n, from_c<S>::make(0)));
      dst.reset(new DV(n, from_c<S>::make(0)));
      for(auto const& a : model[D0]) (*src)[a.first] = from_c<S>::make(a.second * fv);
    });
    auto intact = [&] {
      for(u64 i = 0; i < n; ++i) {
        auto it = model[D0].find(i);
        if(val((*src)[i]) != (it == model[D0].end() ? cplx(0) : it->second * fv)) fail("vector-changed", "%s changed its source", what);
      }
    };
    Amp e = act(mops[k], m, model[D0]);
    if(perform(op, [&] { (*small)(static_cast<DV const&>(*src), *dst); }, intact)) {
      Amp a;
      for(u64 i = 0; i < n; ++i)
        if(val((*dst)[i]) != 0.0) a[i] = val((*dst)[i]) / (fo * fv);
      if(!close(a, e))
        fail("wrong-result", "%s: %g times the operator on %g times the vector is %g times %s instead of %s", what, fo, fv, fo * fv,
             text(a).c_str(), text(e).c_str());
      if(!e.empty() && fo * fv < 1e-14) probe(13);
    }
    intact();
    slots(-1, -1, "completed");
  }

  void nest(Op const& op, int k, int var) {
    // op_k acts on a user vector whose traversal applies op_k2 to sparse vectors
    int k2 = var % NOPS;
    int every = 1 + var % 3;
    HVec<S> src(n);
    for(auto const& x : model[U0]) src.d.emplace(x.first, from_c<S>::make(x.second));
    Amp e1 = act(mops[k], m, model[U0]), e2 = act(mops[k2], m, model[P0]);
    struct Arg {
      Run* r;
      int k2, cnt, every;
    } arg{this, k2, 0, every};
    bool dn = perform(
        op,
        [&] {
          arg.cnt = 0;
          hook_arg = &arg;
          hook = [](void* v) {
            Arg& a = *static_cast<Arg*>(v);
            if(a.cnt++ % a.every) return;
            a.r->ops[a.k2](*a.r->p[0], *a.r->p[1]);
          };
          struct Reset {
            ~Reset() { hook = nullptr; }
          } reset;
          ops[k](src, *u[1]);
        },
        [&] {
          operator_intact(k, "failed");
          operator_intact(k2, "failed");
          resync(U1);
          resync(P1);
          slots(-1, -1, "failed");
          Amp a;
          for(auto const& x : src.d) a[x.first] = val(x.second);
          if(a != model[U0]) fail("vector-changed", "%s failed and changed its source", what);
        });
    if(dn) {
      result(U1, e1);
      if(arg.cnt) { // a vanishing operator does not have to traverse its argument
        result(P1, e2);
        probe(10);
      }
    } else {
      resync(U1);
      resync(P1);
    }
    slots(-1, -1, "completed");
  }

  void make_op(Op const& op, Rng& r, int k, int var) {
    X x;
    int cnt = int(r.below(5));
    for(int i = 0; i < cnt; ++i) {
      cplx v(r.range(1, 3), real ? 0 : r.range(-1, 1));
      x += X(from_c<S>::make(v), make_mono<I...>(word(r)));
    }
    Letter bad{};
    bool unknown = var % 11 == 0;
    if(unknown) {
      bad = Letter{lc::fermion, 5, 1, 0};
      if(var % 2) bad = Letter{lc::boson, 5, 0, 0};
      if(var % 3 == 0) bad = Letter{lc::spin, 5, 2, 4};
      if(var % 5 == 0) bad = Letter{TRI, 1, 0, 0};
      if(var % 7 == 0) bad = Letter{WITT, 0, 1, 0};
      if(space_for(bad, m) >= 0) unknown = false;
    }
    if(unknown) x += X(from_c<S>::make(1), make_mono<I...>(Word{bad}));
    Poly mp = read_expr(x);
    auto intact = [&] {
      operator_intact(k, "failed");
      if(!same(read_expr(x), mp)) fail("operand-changed", "%s: the expression changed", what);
    };
    if(unknown) {
      std::exception_ptr err;
      if(!perform_err(op, [&] { Op_t t(x, hs); }, intact, err)) return;
      x.clear();
      if(!err) fail("missing-error", "an operator with generator %s, which acts nowhere, was constructed", text(bad).c_str());
      try {
        std::rethrow_exception(err);
      } catch(lc::unknown_generator<I...> const& e) {
        Letter l = read_gen(*e.generator_ptr);
        if(l != bad) fail("wrong-error", "%s: error about %s instead of %s", what, text(l).c_str(), text(bad).c_str());
        if(std::string(e.what()) != "Action of generator " + e.generator_ptr->to_string() + " on a state vector is undefined")
          fail("wrong-error", "%s: message '%s'", what, e.what());
        probe(11);
      } catch(std::exception const& e) {
        fail("wrong-error", "%s: %s instead of unknown_generator", what, e.what());
      }
      return;
    }
    bool dn;
    {
      HS h(hs);
      dn = perform(
          op,
          [&] {
            Op_t t(x, h);
            ops[k] = std::move(t);
          },
          intact);
    }
    x.clear();
    if(dn) mops[k] = mp;
    operator_intact(k, "completed");
  }

  void make_par(Op const& op, Rng& r, int k, int var) {
    XP x;
    int cnt = 1 + int(r.below(4));
    for(int i = 0; i < cnt; ++i) {
      auto v = [&] { return cplx(r.range(-2, 2), real ? 0 : r.range(-1, 1)); };
      PCoef<S> co(v(), 1.0, v());
      x += XP(co, make_mono<I...>(word(r)));
    }
    std::vector<PTerm> t;
    for(auto const& mn : x.get_monomials()) {
      PTerm pt;
      pt.w = read_mono(mn.first);
      for(int i = 0; i < 3; ++i) pt.c[i] = mn.second.get()[i];
      t.push_back(pt);
    }
    std::unique_ptr<Par_t> np;
    if(perform(
           op, [&] { np.reset(new Par_t(x, hs)); },
           [&] {
             if(par[k]) par_intact(k, "failed");
           })) {
      x.clear();
      par[k] = std::move(np);
      mpar[k] = t;
      if(var & 1) {
        Par_t y(*par[k]);
        *par[k] = y;
      }
      par_intact(k, "completed");
    }
  }

  void parametric(Op const& op, int s, int t, int k, int var) {
    if(!par[k]) return;
    if(s >= C0) {
      s = huge ? P0 : s % 2 ? D0 : U0;
      t = P0;
      if(s == t) t = P1;
    }
    auto failed = [&] {
      par_intact(k, "failed");
      resync(t);
      slots(-1, -1, "failed");
    };
    double y = double(var % 7) * 0.5 - 1;
    int form = (var / 7) % 5;
    std::string str(std::size_t(3 + var % 30), 'x');
    std::vector<int> vi(std::size_t(var % 4), 2);
    cplx xv = form == 0 ? y : form == 1 ? 2 + y : form == 2 ? double(str.size()) : form == 3 ? double(str.size()) + 2.0 * double(vi.size()) : 1.0;
    bool rv = op.a[3] & 1; // rvalue arguments
    UIdx ui(2);
    Poly pm = at(k, xv);
    Amp e = act(pm, m, model[s]);
    Par_t& P = *par[k];
    switch(op.code) {
    case PAR_APPLY: {
      bool dn = perform(
          op,
          [&] {
            std::string s2 = str;
            std::vector<int> v2 = vi;
            on2(s, t, [&](auto const& a, auto& b) {
              switch(form) {
              case 0: P(a, b, y); break;
              case 1:
                if(rv)
                  P(a, b, UIdx(2), y);
                else
                  P(a, b, ui, y);
                break;
              case 2:
                if(rv)
                  P(a, b, std::move(s2));
                else
                  P(a, b, s2);
                break;
              case 3: P(a, b, std::move(v2), std::string(str)); break;
              default: P(a, b);
              }
            });
          },
          failed);
      if(dn)
        result(t, e);
      else
        failed();
      break;
    }
    case PAR_RET: {
      bool dn = false;
      if(s == P0 || s == P1) {
        t = s ^ 1;
        dn = perform(
            op,
            [&] {
              PV x = form == 2 ? (rv ? P(*p[s - P0], std::string(str)) : P(*p[s - P0], str)) : P(*p[s - P0], UIdx(2), real_of(xv) - 2);
              std::swap(x, *p[t - P0]);
            },
            failed);
      } else if(s == U0 || s == U1) {
        t = s ^ 1;
        dn = perform(
            op,
            [&] {
              UV x = form == 3 ? P(*u[s - U0], std::vector<int>(vi), std::string(str)) : P(*u[s - U0], real_of(xv));
              std::swap(x, *u[t - U0]);
            },
            failed);
      } else
        return;
      if(dn) result(t, e);
      break;
    }
    case PAR_STORE: {
      bool dn = perform(
          op,
          [&] {
            std::string s2 = str;
            std::vector<int> v2 = vi;
            on2(s, t, [&](auto const& a, auto& b) {
              switch(form) {
              case 0: P.act_and_store_coeffs(a, b, buf, y); break;
              case 1: P.act_and_store_coeffs(a, b, buf, UIdx(2), y); break;
              case 2:
                if(rv)
                  P.act_and_store_coeffs(a, b, buf, std::move(s2));
                else
                  P.act_and_store_coeffs(a, b, buf, s2);
                break;
              case 3: P.act_and_store_coeffs(a, b, buf, std::move(v2), std::move(s2)); break;
              default: P.act_and_store_coeffs(a, b, buf);
              }
            });
          },
          failed);
      if(dn) {
        result(t, e);
        if(buf.size() != pm.size()) fail("wrong-result", "%s: %zu coefficients stored instead of %zu", what, buf.size(), pm.size());
        for(std::size_t i = 0; i < buf.size(); ++i)
          if(val(buf[i]) != pm[i].second) fail("wrong-result", "%s: coefficient %zu is wrong", what, i);
        probe(12);
      } else
        failed();
      break;
    }
    default: { // at()
      Op_t lop;
      bool dn = perform(
          op,
          [&] {
            switch(form) {
            case 0: lop = P.at(y); break;
            case 1: lop = P.at(UIdx(2), y); break;
            case 2: lop = rv ? P.at(std::string(str)) : P.at(str); break;
            case 3: lop = P.at(std::vector<int>(vi), std::string(str)); break;
            default: lop = P.at();
            }
          },
          failed);
      if(!dn) break;
      dn = perform(op, [&] { on2(s, t, [&](auto const& a, auto& b) { lop(a, b); }); }, failed);
      if(dn)
        result(t, e);
      else
        failed();
    }
    }
    par_intact(k, "completed");
    slots(-1, -1, "completed");
  }
  static double real_of(cplx x) { return x.real(); }
  // fewer combinations than on()
  template <class F> void on2(int s, int t, F&& f) {
    auto src = [&](auto& dst) {
      switch(s) {
      case D0: case D1: f(static_cast<DV const&>(*d[s - D0]), dst); break;
      case P0: case P1: f(static_cast<PV const&>(*p[s - P0]), dst); break;
      default: f(static_cast<UV const&>(*u[s - U0]), dst);
      }
    };
    (void)src;
    // parametric operators require source and destination of any types
    switch(t) {
    case D0: case D1: conv(s, *d[t - D0], f); break;
    case P0: case P1: conv(s, *p[t - P0], f); break;
    default: conv(s, *u[t - U0], f);
    }
  }
  // source of the destination's type
  template <class V, class F> void conv(int s, V& dst, F&& f) {
    std::unique_ptr<V> src;
    {
      Pause pp;
      bool w = g.window;
      g.window = false;
      src.reset(new V(static_cast<V const&>(dst)));
      clear(*src);
      for(auto const& x : model[s]) put(*src, x.first, x.second);
      g.window = w;
    }
    V const& cs = *src;
    f(cs, dst);
    Pause pp;
    if(get(cs) != model[s]) fail("vector-changed", "%s changed its source", what);
  }
  static void clear(DV& v) {
    for(auto& x : v) x = from_c<S>::make(0);
  }
  static void clear(PV& v) {
    using lc::set_zeros;
    set_zeros(v);
  }
  static void clear(UV& v) { v.d.clear(); }
  static void put(DV& v, u64 i, cplx x) { v[i] = from_c<S>::make(x); }
  static void put(PV& v, u64 i, cplx x) { v[i] = from_c<S>::make(x); }
  static void put(UV& v, u64 i, cplx x) { v.d.emplace(i, from_c<S>::make(x)); }
  static Amp get(DV const& v) {
    Amp a;
    for(u64 k = 0; k < v.size(); ++k)
      if(val(v[k]) != 0.0) a[k] = val(v[k]);
    return a;
  }
  static Amp get(PV const& v) {
    Amp a;
    foreach(v, [&](u64 k, S const& x) {
      if(val(x) != 0.0) a[k] = val(x);
    });
    return a;
  }
  static Amp get(UV const& v) {
    Amp a;
    for(auto const& x : v.d)
      if(val(x.second) != 0.0) a[x.first] = val(x.second);
    return a;
  }

  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      // keep numbers in range
      for(int s = 0; s < NSLOTS; ++s)
        for(auto const& x : model[s])
          if(!(std::abs(x.second) < 1e8)) {
            zero(s);
            model[s].clear();
            break;
          }
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
    slots(-1, -1, "finally");
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {int(r.below(1000)), int(r.below(3)), r.range(1, 15)};
  int n = size ? size : r.range(6, 22);
  bool on[NCODES];
  for(int i = 0; i < NCODES; ++i) on[i] = r.chance(3, 4);
  on[MAKE_OP] = on[FILL] = on[APPLY] = true;
  for(int i = 0; i < n; ++i) {
    Op o;
    do {
      o.code = int(r.below(NCODES));
      if(i < 3) o.code = FILL;
      if(i == 3 || i == 4) o.code = MAKE_OP;
      if(i == 5) o.code = MAKE_PAR;
    } while(!on[o.code] && i > 5);
    for(int& a : o.a) a = int(r.below(1 << 15));
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<Scal<0>, UIdx> TheRun;
#define SIM_NAME "L0"
#elif SIM_CONF == 1
typedef Run<double, int> TheRun;
#define SIM_NAME "L1"
#else
typedef Run<cplx, std::string, int> TheRun;
#define SIM_NAME "L2"
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  return std::string(code_name[o.code % NCODES]) + " op" + std::to_string(o.a[2] % 3) + " v" + std::to_string(o.a[0] % NSLOTS) +
         " v" + std::to_string(o.a[1] % NSLOTS);
}
} // namespace
SIM_SCENARIO(L, SIM_NAME, gen, run,
             1u << K_ALLOC | 1u << K_IDX | 1u << K_GEN | 1u << K_ES | 1u << K_SCALAR | 1u << K_COEF | 1u << K_VEC, describe)
} // namespace sim
