// Scenario T: traversals that nest, interleave and are abandoned.
#include "views.hpp"

#include <sstream>

namespace sim {
namespace {

enum Obj {
  O_HS, O_ES, O_PART, O_EXPR, O_TRANSFORM, O_MONO, O_REVERSE, O_HS2, O_BIG, // foreach and iteration
  O_V0, O_V1, O_V2, O_V3,
  O_APPLY,                                              // operator application, interrupted by updates of its destination
  O_MUL, O_CONN, O_BASES, O_COPY_HS, O_GET, O_PRINT, O_COPY_PART, O_COPY_VEC, // other uses
  NOBJ
};
const char* const obj_name[NOBJ] = {"hilbert-space", "elementary-spaces", "partition", "expression", "transform", "monomial", "reversed-monomial",
                                    "other-hilbert-space", "huge-space", "vector-0", "vector-1", "vector-2", "vector-3", "application",
                                    "product", "connections", "bases", "copy-hilbert-space", "get", "print", "copy-partition", "copy-vector"};

struct Stop2 {
  int level; // where it is caught
};
typedef std::pair<u64, cplx> Item;
struct Node {
  int obj;
  int stop;                                // abandon after this many visits (-1: never)
  int up;                                  // how many traversals are abandoned
  std::vector<std::pair<int, int>> child;  // after how many visits, which node
};

template <class S, typename... I> struct Run {
  typedef VSpace<S, I...> VS;
  typedef lc::hilbert_space<I...> HS;
  typedef lc::expression<S, I...> X;
  typedef lc::space_partition<HS> SP;
  enum { real = from_c<S>::real, NV = 4 };

  Plan const& plan;
  Rng r0;
  VS sp;
  MHS const& m;
  MHS m2, mb;
  HS hs2, big;
  std::unique_ptr<SP> part;
  std::vector<int> mpart;
  X ex;
  Poly poly;
  LOp<S> lop;
  std::set<std::pair<u64, u64>> conns;
  std::string printed;
  Poly product;
  struct Slot {
    typename VS::Proto p; // a mapped view needs its mapper
    typename VS::Ptr v;
    std::shared_ptr<VModel> md;
  } s[NV];
  std::vector<Item> expected[NOBJ];
  bool ordered[NOBJ];
  std::vector<Node> nodes;
  int deepest = 0;

  Amp in;
  UVec<S> src;

  X random_expr(Rng& r, MHS const& h, int cnt) {
    X x;
    for(int i = 0; i < cnt; ++i) {
      cplx c(r.range(1, 3), real ? 0 : r.range(-1, 1));
      Word w;
      int len = 1 + int(r.below(3));
      for(int k = 0; k < len; ++k) w.push_back(letter_on(r, h));
      x += X(from_c<S>::make(c), make_mono<I...>(w));
    }
    return x;
  }

  explicit Run(Plan const& pl)
    : plan(pl), r0(pl.seed ^ u64(pl.cfg[0]) * 7919), sp(r0, pl.cfg[1], pl.cfg[2]), m(sp.m), src(u64(1) << m.bits()) {
    Rng& r = r0;
    m2 = m;
    m2.insert(SD{lc::boson, 7, 3});
    hs2 = sp.hs;
    if(m2.bits() <= 62)
      hs2.add(*make_es<I...>(SD{lc::boson, 7, 3}));
    else
      m2 = m;
    static const long huge[4][3] = {{777767, 1000003, 777767}, {6144, 10240, 14336}, {65536, 65535, 65536}, {1L << 20, 1L << 21, 3}};
    for(int k = 0; k < 3; ++k) mb.insert(SD{lc::boson, k, huge[pl.cfg[0] % 4][k]});
    for(auto const& x : mb.es) big.add(*make_es<I...>(x));
    for(int t = 0; t < 8; ++t) {
      ex = random_expr(r, m, 1 + int(r.below(5)));
      poly = read_expr(ex);
      bool frag = false;
      for(u64 k = 0; k < std::min<u64>(m.dim(), 256); ++k) frag = frag || fragile(poly, m, m.state(k));
      if(!frag && poly.size()) break;
      ex = X(from_c<S>::make(1), make_mono<I...>(Word{letter_on(r, m)}));
      poly = read_expr(ex);
    }
    lop = LOp<S>(ex, sp.hs);
    product = read_expr(ex * ex);
    std::ostringstream os;
    os << ex;
    printed = os.str();
    std::fill(ordered, ordered + NOBJ, true);
    if(!sp.big) {
      for(u64 k = 0; k < m.dim(); ++k) expected[O_HS].push_back(Item(m.state(k), 0));
      part.reset(new SP(lop, sp.hs));
      for(u64 k = 0; k < m.dim(); ++k) {
        mpart.push_back(int((*part)[m.state(k)])); // (the partition itself is judged by scenario P)
        expected[O_PART].push_back(Item(m.state(k), double(mpart.back())));
      }
      for(auto const& c : part->find_connections(lop)) conns.insert(c);
    }
    if(!sp.big)
      for(u64 k = 0; k < m2.dim(); ++k) expected[O_HS2].push_back(Item(m2.state(k), 0));
    for(u64 k = 0; k < 64; ++k) expected[O_BIG].push_back(Item(mb.state(k), 0));
    for(std::size_t k = 0; k < m.es.size(); ++k) expected[O_ES].push_back(Item(u64(k), 0));
    for(std::size_t k = 0; k < poly.size(); ++k) expected[O_EXPR].push_back(Item(u64(k), poly[k].second));
    expected[O_TRANSFORM] = expected[O_EXPR];
    for(std::size_t k = 0; k < poly.back().first.size(); ++k) expected[O_MONO].push_back(Item(u64(k), 0));
    expected[O_REVERSE] = expected[O_MONO];
    std::reverse(expected[O_REVERSE].begin(), expected[O_REVERSE].end());
    for(int k = 0; k < 3; ++k) {
      u64 n = m.state(r.below(m.dim()));
      if(fragile(poly, m, n)) continue;
      in[n] = double(1 + k);
    }
    for(auto const& a : in) src.d.emplace(a.first, from_c<S>::make(a.second));
    for(int i = 0; i < NV; ++i) make_vec(i, r);
  }
  void make_vec(int i, Rng& r) {
    for(int t = 0; t < 6; ++t) {
      int k = int(r.below(u64(VS::n_kinds())));
      if(!sp.possible(k)) continue;
      auto p = sp.prepare(r, k);
      if(p.k < 0 || p.model->keys.empty() || !p.model->each) continue;
      s[i].v = sp.build(p, VS::kind(k).konst && false);
      s[i].md = p.model;
      s[i].p = p;
      sp.check_slots(p, *s[i].v);
      for(int c = r.range(0, 12); c > 0; --c) {
        u64 n = p.model->keys[std::size_t(r.below(p.model->keys.size()))];
        cplx x(r.range(-4, 4) / 2.0, real ? 0 : r.range(-2, 2));
        s[i].v->add_tmp(n, from_c<S>::make(x));
        p.model->add(n, x);
      }
      if(VS::kind(k).konst && r.chance(1, 2)) s[i].v = sp.build(p, true);
      break;
    }
    fill_expected(i);
  }
  void fill_expected(int i) {
    auto& e = expected[O_V0 + i];
    e.clear();
    if(!s[i].v) return;
    for(u64 n : s[i].md->keys)
      if(s[i].md->amp.count(n)) e.push_back(Item(n, s[i].md->amp[n]));
    ordered[O_V0 + i] = s[i].md->ordered;
  }
  bool available(int o) const {
    switch(o) {
    case O_HS: case O_PART: case O_CONN: case O_BASES: case O_HS2: case O_COPY_PART: return !sp.big;
    case O_V0: case O_V1: case O_V2: case O_V3: return bool(s[o - O_V0].v);
    case O_APPLY: return !in.empty();
    default: return true;
    }
  }

  // adds amplitudes, mostly such that others vanish
  template <class V> void change(V& v, Amp& md, std::vector<u64> const& keys, u64 k0) {
    for(u64 k = 0; k < 4; ++k) {
      u64 n = keys[std::size_t((k0 + 7 * k) % keys.size())];
      if(k % 2 == 0 && !md.empty()) {
        auto it = md.begin();
        std::advance(it, long((k0 + k) % md.size()));
        n = it->first;
      }
      cplx old = md.count(n) ? md[n] : cplx(0.0);
      cplx x = old != 0.0 ? -old : cplx(double(1 + k), 0);
      v.add_tmp(n, from_c<S>::make(x));
      if(old + x == 0.0) md.erase(n);
      else md[n] = old + x;
    }
  }
  // the objects go on being used and changed
  void evolve(Rng& r) {
    for(int i = 0; i < NV; ++i)
      if(s[i].v && s[i].v->writable() && r.chance(1, 2)) {
        change(*s[i].v, s[i].md->amp, s[i].md->keys, r.below(1000));
        fill_expected(i);
        if(s[i].v->stored() >= 0 && s[i].v->stored() != long(s[i].md->amp.size()))
          fail("wrong-traversal", "%s stores %ld amplitudes instead of %zu", s[i].md->name.c_str(), s[i].v->stored(), s[i].md->amp.size());
      }
  }
  //---------------------------------------------------------------- trees
  int tree(Rng& r, int depth) {
    int id = int(nodes.size());
    nodes.push_back(Node());
    Node nd;
    do
      nd.obj = int(r.below(depth == 0 ? O_MUL : NOBJ));
    while(!available(nd.obj));
    if(depth > 0 && r.chance(1, 3)) nd.obj = nodes[0].obj; // same object
    nodes[std::size_t(id)].obj = nd.obj;
    std::size_t len = expected[nd.obj].size();
    nd.stop = -1;
    nd.up = 0;
    if(nd.obj == O_BIG || (len && r.chance(1, 4))) nd.stop = 1 + int(r.below(nd.obj == O_BIG ? 40 : len));
    if(r.chance(1, 4)) nd.up = int(r.below(u64(depth + 1)));
    int nc = depth >= 3 || nd.obj >= O_MUL ? 0 : int(r.below(depth == 0 ? 4 : 3));
    if(nodes.size() > 9) nc = 0;
    for(int k = 0; k < nc; ++k) {
      int at = int(r.below(len + 1));
      int c = tree(r, depth + 1);
      nd.child.emplace_back(nd.obj == O_APPLY ? int(r.below(4)) : at, c);
    }
    nodes[std::size_t(id)] = nd;
    return id;
  }
  std::string show(int id) const {
    Node const& nd = nodes[std::size_t(id)];
    std::string t = obj_name[nd.obj];
    if(nd.stop >= 0) t += " (abandoned after " + std::to_string(nd.stop) + (nd.up ? ", with " + std::to_string(nd.up) + " outer ones" : "") + ")";
    if(nd.child.size()) {
      t += " {";
      for(auto const& c : nd.child) t += " " + std::to_string(c.first) + ": " + show(c.second);
      t += " }";
    }
    return t;
  }

  struct Cb { // what happens at every visit
    Run& run;
    Node const& nd;
    int depth;
    std::vector<Item> got;
    template <class Get> void visit(u64 key, Get get) {
      point(K_CB);
      for(auto const& c : nd.child)
        if(c.first == int(got.size())) run.go(c.second, depth + 1);
      Pause p;
      cplx x = get();
      got.push_back(Item(key, x));
      if(nd.obj == O_BIG && got.size() > 45) fail("wrong-traversal", "a traversal went on after it was abandoned");
      if(nd.stop == int(got.size())) throw Stop2{depth - nd.up};
    }
  };
  static void hook(void* q, u64 n) {
    static_cast<Cb*>(q)->visit(n, [] { return cplx(0.0); });
  }

  void go(int id, int depth) {
    Node const& nd = nodes[std::size_t(id)];
    deepest = std::max(deepest, depth);
    Cb cb{*this, nd, depth, {}};
    UVec<S> dst(u64(1) << m.bits());
    bool abandoned = false;
    try {
      traverse(nd, cb, dst);
    } catch(Stop2 const& e) {
      if(e.level < depth) throw;
      abandoned = true;
    }
    Pause p;
    check(nd, cb, dst, abandoned);
  }
  void traverse(Node const& nd, Cb& cb, UVec<S>& dst) {
    auto zero = [] { return cplx(0.0); };
    switch(nd.obj) {
    case O_HS: foreach(sp.hs, [&](lc::sv_index_type st) { cb.visit(st, zero); }); break;
    case O_HS2: foreach(hs2, [&](lc::sv_index_type st) { cb.visit(st, zero); }); break;
    case O_BIG: foreach(big, [&](lc::sv_index_type st) { cb.visit(st, zero); }); break;
    case O_ES: {
      u64 k = 0;
      sp.hs.foreach_elementary_space([&](lc::elementary_space<I...> const& es) {
        cb.visit(k++, zero);
        Pause p;
        if(!(read_es(es) == m.es[std::size_t(k - 1)])) fail("wrong-traversal", "elementary space %llu changed", (unsigned long long)(k - 1));
      });
      break;
    }
    case O_PART: foreach(*part, [&](lc::sv_index_type st, lc::sv_index_type sub) { cb.visit(st, [&] { return cplx(double(sub)); }); }); break;
    case O_EXPR: {
      u64 k = 0;
      int how = int(&nd - nodes.data()) % 3;
      if(how) { // iterators and what they point to, kept while others are in use
        auto it = ex.begin();
        while(it != ex.end()) {
          auto const x = it.operator->();
          auto here = how == 1 ? it++ : it;
          cb.visit(k++, [&] { return val(x->coeff); });
          Pause p;
          if(read_mono(x->monomial) != poly[std::size_t(k - 1)].first || read_mono((*here).monomial) != poly[std::size_t(k - 1)].first)
            fail("wrong-traversal", "monomial %llu changed", (unsigned long long)(k - 1));
          if(how == 2) {
            auto next = here;
            ++next;
            auto back = next;
            if(!(--back == here)) fail("wrong-traversal", "the predecessor of the successor is another term");
            swap(it, next);
          }
        }
        break;
      }
      for(auto const& x : ex) {
        cb.visit(k++, [&] { return val(x.coeff); });
        Pause p;
        if(read_mono(x.monomial) != poly[std::size_t(k - 1)].first) fail("wrong-traversal", "monomial %llu changed", (unsigned long long)(k - 1));
      }
      break;
    }
    case O_TRANSFORM: {
      u64 k = 0;
      X n = transform(ex, [&](lc::monomial<I...> const& mono, S const& c) -> S {
        cb.visit(k++, [&] { return val(c); });
        Pause p;
        if(read_mono(mono) != poly[std::size_t(k - 1)].first) fail("wrong-traversal", "monomial %llu changed", (unsigned long long)(k - 1));
        return c;
      });
      Pause p;
      if(!same(read_expr(n), poly)) fail("wrong-traversal", "the transformed expression is wrong");
      break;
    }
    case O_MONO:
    case O_REVERSE: {
      auto const& mono = ex.get_monomials().rbegin()->first;
      Word const& w = poly.back().first;
      auto one = [&](lc::generator<I...> const& gen, u64 k) {
        cb.visit(k, zero);
        Pause p;
        if(read_gen(gen) != w[std::size_t(k)]) fail("wrong-traversal", "generator %llu changed", (unsigned long long)k);
      };
      if(nd.obj == O_MONO) {
        u64 k = 0;
        for(auto const& gen : mono) one(gen, k++);
      } else {
        u64 k = w.size();
        for(auto it = mono.rbegin(); it != mono.rend(); ++it) one(*it, --k);
      }
      break;
    }
    case O_V0: case O_V1: case O_V2: case O_V3:
      s[nd.obj - O_V0].v->each([&](u64 n, S const& x) { cb.visit(n, [&] { return val(x); }); });
      break;
    case O_APPLY: {
      struct Back {
        UHook old = uhook;
        ~Back() { uhook = old; }
      } back;
      uhook.arg = &cb;
      uhook.f = &hook;
      lop(src, dst);
      break;
    }
    case O_MUL: {
      X n = ex * ex;
      Pause p;
      if(!same(read_expr(n), product)) fail("wrong-result", "a product computed during a traversal is wrong");
      break;
    }
    case O_CONN: {
      auto c = part->find_connections(lop);
      Pause p;
      std::set<std::pair<u64, u64>> cs;
      for(auto const& x : c) cs.insert(x);
      if(cs != conns) fail("wrong-result", "connections found during a traversal are wrong");
      break;
    }
    case O_BASES: {
      auto b = part->subspace_bases();
      Pause p;
      std::size_t n = 0;
      for(std::size_t k = 0; k < b.size(); ++k)
        for(u64 st : b[k]) {
          ++n;
          if(!m.is_state(st) || mpart[std::size_t(m.number(st))] != int(k)) fail("wrong-result", "subspace bases found during a traversal are wrong");
        }
      if(n != mpart.size()) fail("wrong-result", "subspace bases found during a traversal are incomplete");
      break;
    }
    case O_COPY_PART: {
      SP c(*part);
      foreach(c, [&](lc::sv_index_type st, lc::sv_index_type sub) {
        if(int(sub) != mpart[std::size_t(m.number(st))]) fail("wrong-result", "a copy of the partition made during a traversal is wrong");
      });
      break;
    }
    case O_COPY_HS: {
      HS h(sp.hs);
      Pause p;
      check_hs(h, m, "copy made during a traversal", 8);
      break;
    }
    case O_COPY_VEC:
      for(int i = 0; i < NV; ++i)
        if(s[i].v && s[i].v->writable() && !s[i].v->view()) {
          auto c = s[i].v->clone();
          auto md = s[i].md->amp;
          change(*c, md, s[i].md->keys, u64(nd.up) * 5 + nd.child.size());
          std::size_t n = 0;
          c->each([&](u64 k, S const& x) {
            Pause p;
            ++n;
            if(!md.count(k) || md[k] != val(x)) fail("wrong-traversal", "changed copy of %s made during a traversal: unexpected visit %llu (%g,%g)", s[i].md->name.c_str(), (unsigned long long)k, val(x).real(), val(x).imag());
          });
          if(n != md.size()) fail("wrong-traversal", "changed copy of %s made during a traversal: %zu visits instead of %zu", s[i].md->name.c_str(), n, md.size());
        }
      break;
    case O_GET:
      for(int i = 0; i < NV; ++i)
        if(s[i].v)
          for(std::size_t k = 0; k < 3; ++k) {
            u64 n = s[i].md->keys[(k * 17 + std::size_t(nd.up)) % s[i].md->keys.size()];
            cplx x = val(s[i].v->get(n));
            if(x != s[i].md->at(n)) fail("wrong-amplitude", "amplitude %llu of %s read during a traversal is wrong", (unsigned long long)n, s[i].md->name.c_str());
          }
      break;
    case O_PRINT: {
      QuietSink sk;
      std::ostream os(&sk);
      os.exceptions(std::ios::badbit); // lets errors through
      os << ex;
      Pause p;
      if(sk.s != printed) fail("wrong-result", "text printed during a traversal is '%s' instead of '%s'", sk.s.c_str(), printed.c_str());
      break;
    }
    }
  }
  void check(Node const& nd, Cb const& cb, UVec<S> const& dst, bool abandoned) {
    if(nd.obj >= O_MUL) return;
    if(nd.obj == O_APPLY) {
      if(abandoned) return;
      Amp got;
      for(auto const& x : dst.d)
        if(val(x.second) != 0.0) got[x.first] = val(x.second);
      if(!close(got, act(poly, m, in)))
        fail("wrong-application", "%s applied to %s gives %s with traversals in between", text(poly).c_str(), text(in).c_str(), text(got).c_str());
      return;
    }
    auto const& e = expected[nd.obj];
    auto const& got = cb.got;
    const char* name = nd.obj >= O_V0 && nd.obj <= O_V3 ? s[nd.obj - O_V0].md->name.c_str() : obj_name[nd.obj];
    if(nd.obj == O_BIG && !abandoned) fail("wrong-traversal", "traversal of %s ended after %zu visits", text(mb).c_str(), got.size());
    if(nd.obj != O_BIG && (abandoned ? got.size() > e.size() : got.size() != e.size()))
      fail("wrong-traversal", "traversal of %s: %zu visits instead of %zu", name, got.size(), e.size());
    log_u64(got.size());
    if(ordered[nd.obj]) {
      for(std::size_t k = 0; k < got.size(); ++k)
        if(got[k] != e[k])
          fail("wrong-traversal", "traversal of %s: visit %zu is %llu (%g,%g) instead of %llu (%g,%g)", name, k, (unsigned long long)got[k].first,
               got[k].second.real(), got[k].second.imag(), (unsigned long long)e[k].first, e[k].second.real(), e[k].second.imag());
    } else {
      std::map<u64, cplx> w(e.begin(), e.end());
      std::set<u64> seen;
      for(auto const& x : got) {
        auto it = w.find(x.first);
        if(it == w.end() || it->second != x.second || !seen.insert(x.first).second)
          fail("wrong-traversal", "traversal of %s: unexpected visit %llu (%g,%g)", name, (unsigned long long)x.first, x.second.real(), x.second.imag());
      }
    }
  }

  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      Op const& op = plan.ops[k];
      Rng r(u64(op.a[0]) << 30 ^ u64(op.a[1]) << 15 ^ u64(op.a[2]));
      nodes.clear();
      int root = tree(r, 0);
      if(g.verbose) trace("op %zu %s over %s", k, show(root).c_str(), text(m).c_str());
      perform(op, [&] { go(root, 0); }, [] {});
      if(deepest >= 2) probe(40);
      for(auto const& nd : nodes)
        if(nd.stop >= 0 && nd.up) probe(41);
      if(nodes.size() > 1 && nodes[1].obj == nodes[0].obj) probe(42);
      if(nodes[0].obj == O_APPLY && nodes.size() > 1) probe(43);
      // everything again, alone
      quiet([&] {
        if(op.a[2] % 2) evolve(r);
        nodes.clear();
        for(int o = 0; o <= O_APPLY; ++o)
          if(available(o)) {
            Node nd;
            nd.obj = o;
            nd.stop = o == O_BIG ? 5 : -1;
            nd.up = 0;
            nodes.assign(1, nd);
            go(0, 0);
          }
      });
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
    sh->trivial_ok = 1;
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {int(r.below(1000)), r.chance(1, 8) ? 2 : int(r.below(2)), r.range(1, 15)};
  int n = size ? size : r.range(3, 14);
  for(int i = 0; i < n; ++i) {
    Op o;
    for(int& a : o.a) a = int(r.below(1 << 15));
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<Scal<0>, UIdx> TheRun;
#define SIM_NAME "T0"
#elif SIM_CONF == 1
typedef Run<double, int> TheRun;
#define SIM_NAME "T1"
#else
typedef Run<cplx, dyn_indices> TheRun;
#define SIM_NAME "T2"
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) { return "traversal tree " + std::to_string(o.a[0]); }
} // namespace
SIM_SCENARIO(T, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_GEN | 1u << K_SCALAR | 1u << K_CB | 1u << K_VEC | 1u << K_IDX | 1u << K_ES, describe)
} // namespace sim
