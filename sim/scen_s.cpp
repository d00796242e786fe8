// Scenario S: printing to streams whose buffers fail, throw, or take data in
// small pieces. Three streams live through the run, with changing formatting
// settings, exception masks and locales; the text every object must produce is
// composed independently.
#include "userlib.hpp"

#include <iomanip>
#include <iostream>
#include <locale>
#include <sstream>

namespace sim {
namespace {

enum Code { PRINT, CHAIN, FORMAT, MASK, REPAIR, SPOIL, CHANGE, COPYFMT, NESTED, NCODES };
const char* const code_name[NCODES] = {"print", "print-chain", "format", "exception-mask", "repair", "spoil-state", "change-object",
                                       "copy-format", "nested-print"};

// A stream buffer with seeded failures. Failure styles: 0 accepts a part and
// reports failure, 1 accepts a part and throws; broken: all later calls fail, too
struct Sink : std::streambuf {
  std::string s;   // what has arrived
  char area[16];
  int cap = 0;     // size of the put area (0: unbuffered)
  int style = 0, part = 0;
  bool stay = false, broken = false;
  bool will_throw = false, threw = false, refused = false; // during the current attempt
  long calls = 0;

  void init(int c) {
    cap = c;
    setp(area, area + cap);
  }
  std::string all() const { return s + std::string(pbase(), pptr()); }
  void reset() {
    broken = false;
    setp(area, area + cap);
  }
  // true: fail now, having accepted n of the characters offered
  bool trouble(std::size_t offered, std::size_t& n) {
    ++calls;
    if(broken) {
      n = 0;
      refused = true;
      return true;
    }
    if(!due(K_SINK)) return false;
    n = std::size_t(part) % (offered + (style == 0 ? 0 : 1));
    if(stay) broken = true;
    refused = true;
    will_throw = style == 1;
    return true;
  }
  void blow() {
    if(will_throw) {
      will_throw = false;
      threw = true;
      throw Injected(g.id, K_SINK);
    }
  }
  bool flush_area() {
    std::size_t have = std::size_t(pptr() - pbase()), n;
    if(have && trouble(have, n)) {
      s.append(pbase(), n);
      setp(area, area + cap);
      blow();
      return false;
    }
    s.append(pbase(), have);
    setp(area, area + cap);
    return true;
  }
  int_type overflow(int_type c) override {
    Pause_ p;
    if(cap && !flush_area()) return traits_type::eof();
    if(c == traits_type::eof()) return 0;
    std::size_t n;
    if(!cap && trouble(1, n)) {
      blow();
      return traits_type::eof();
    }
    if(cap) {
      *pptr() = char(c);
      pbump(1);
    } else
      s += char(c);
    return c;
  }
  std::streamsize xsputn(char const* q, std::streamsize len) override {
    if(cap) return std::streambuf::xsputn(q, len); // through the put area
    Pause_ p;
    std::size_t n;
    if(len && trouble(std::size_t(len), n)) {
      s.append(q, n);
      blow();
      return std::streamsize(n);
    }
    s.append(q, std::size_t(len));
    return len;
  }
  int sync() override {
    Pause_ p;
    return flush_area() ? 0 : -1;
  }
  // harness memory is not subject to failures, the sink itself is
  struct Pause_ {
    unsigned old;
    Pause_() : old(g.off) { g.off |= 1u << K_ALLOC; }
    ~Pause_() { g.off = old; }
  };
};

struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '\''; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
};

// Text of indices, composed independently of tuple_to_string()
inline std::string itext(UIdx const& x) { return "u" + std::to_string(x.get()); }
inline std::string itext(int x) { return std::to_string(x); }
inline std::string itext(std::string const& x) { return x; }
inline std::string itext(dyn_indices const& x) {
  typedef dyn_indices::indices_t V;
  std::string s;
  bool first = true;
  for(auto const& v : static_cast<V const&>(x)) {
    if(!first) s += ',';
    first = false;
    if(auto const* p = std::get_if<int>(&v))
      s += std::to_string(*p);
    else
      s += std::get<std::string>(v);
  }
  return s;
}
template <typename... I> std::string ttext(std::tuple<I...> const& t) {
  std::string s;
  bool first = true;
  std::apply([&](auto const&... x) { ((s += (first ? "" : ","), first = false, s += itext(x)), ...); }, t);
  return s;
}
template <typename... I> std::string gtext(Letter const& l) {
  std::string i = "(" + ttext(Indices<I...>::make(l.idx)) + ")";
  switch(l.alg) {
  case lc::fermion: return std::string("C") + (l.a ? "+" : "") + i;
  case lc::boson: return std::string("A") + (l.a ? "+" : "") + i;
  case lc::spin: {
    std::string s = "S";
    if(l.mult != 2) s += l.mult % 2 ? std::to_string((l.mult - 1) / 2) : std::to_string(l.mult - 1) + "/2";
    return s + (l.a == 0 ? "+" : l.a == 1 ? "-" : "z") + i;
  }
  default: {
    static const char* const names[] = {"L", "G", "Q", "T", "U", "P"};
    return names[l.alg] + std::to_string(l.a) + i;
  }
  }
}
template <typename... I> std::string wtext(Word const& w) {
  std::string s;
  for(std::size_t k = 0; k < w.size();) {
    std::size_t n = 1;
    while(k + n < w.size() && w[k + n] == w[k]) ++n;
    std::string t = gtext<I...>(w[k]);
    s += n > 1 ? "[" + t + "]^" + std::to_string(n) : t;
    k += n;
  }
  return s;
}
void ctext(std::ostream& os, cplx c, double) { os << c.real(); }
void ctext(std::ostream& os, cplx c, cplx) { os << c; }
template <int T> void ctext(std::ostream& os, cplx c, Scal<T>) { os << '(' << c.real() << ',' << c.imag() << ')'; }

// a generator that does not override to_string()
template <typename... I> struct Plain : lc::generator<I...> {
  int id;
  Plain(int id, std::tuple<I...> const& t) : lc::generator<I...>(t), id(id) {}
  int algebra_id() const override { return id; }
  lc::var_number swap_with(lc::generator<I...> const&, typename lc::generator<I...>::linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};

// indices with unusual characters, a zero character included
template <typename... I> struct Weird {
  static std::tuple<I...> make(int i) { return Indices<I...>::make(i); }
};
inline std::string weird() { return std::string("z\0%s\n\t\xff\0", 8); }
template <> struct Weird<std::string, int> {
  static std::tuple<std::string, int> make(int i) { return std::make_tuple(weird(), i); }
};
template <> struct Weird<dyn_indices> {
  static std::tuple<dyn_indices> make(int i) { return std::make_tuple(dyn_indices(i, weird(), weird())); }
};

template <class S, typename... I> struct Run {
  typedef lc::expression<S, I...> X;
  typedef lc::monomial<I...> M;
  typedef lc::generator<I...> G;
  enum { NX = 3, NM = 3, NG = 6, ND = 3, NV = 6, NS = 3 };
  Plan const& plan;
  std::vector<X> x;
  std::vector<Poly> mx;
  std::vector<M> m;
  std::vector<Word> mm;
  std::vector<std::shared_ptr<const G>> gs;
  std::vector<std::string> mg;
  std::vector<dyn_indices> dy;
  std::vector<lc::var_number> vn;
  struct Str {
    Sink sink;
    std::ostream os;
    std::string content; // model
    Str() : os(nullptr) {}
  };
  Str st[NS];
  std::locale comma;
  const char* what = "";

  explicit Run(Plan const& p) : plan(p), comma(std::locale::classic(), new Comma) {
    Rng r(u64(p.cfg[0]));
    int n_idx = p.cfg[1];
    auto letter = [&] {
      Letter l;
      l.idx = int(r.below(u64(n_idx)));
      l.mult = 0;
      switch(r.below(5)) {
      case 0: l.alg = lc::fermion; l.a = int(r.below(2)); break;
      case 1: l.alg = lc::boson; l.a = int(r.below(2)); break;
      case 2: l.alg = lc::spin; l.a = int(r.below(3)); l.mult = r.range(2, 5); break;
      case 3: l.alg = CLIFF; l.idx &= 1; l.a = r.range(0, 2); break;
      default: l.alg = TRI; l.idx &= 1; l.a = 0; break;
      }
      return l;
    };
    auto word = [&](int n) {
      Word w;
      for(int k = int(r.below(u64(n + 1))); k > 0; --k) w.push_back(!w.empty() && r.chance(1, 3) ? w.back() : letter());
      return w;
    };
    static const double num[] = {1, -1, 2, 0.5, -2.25, 1234567, 1e-3, -1e10, 1.0 / 3, 42};
    for(int i = 0; i < NX; ++i) {
      X e;
      for(int k = int(r.below(5)); k > 0; --k) {
        cplx c(num[r.below(10)], from_c<S>::real || r.chance(1, 2) ? 0 : num[r.below(10)]);
        e += X(from_c<S>::make(c), make_mono<I...>(word(4)));
      }
      x.push_back(e);
      mx.push_back(read_expr(e));
    }
    for(int i = 0; i < NM; ++i) {
      mm.push_back(word(12));
      m.push_back(make_mono<I...>(mm.back()));
    }
    for(int i = 0; i < NG; ++i) {
      if(i == 5) {
        int id = int(r.below(2000)) - 1;
        int ix = int(r.below(u64(n_idx)));
        auto t = r.chance(1, 2) ? Weird<I...>::make(ix) : Indices<I...>::make(ix);
        gs.push_back(std::make_shared<Plain<I...>>(id, t));
        mg.push_back("g^" + std::to_string(id) + "(" + ttext(t) + ")");
      } else {
        Letter l = letter();
        gs.push_back(make_gen<I...>(l));
        mg.push_back(gtext<I...>(l));
      }
    }
    for(int i = 0; i < ND; ++i) dy.push_back(std::get<0>(Indices<dyn_indices>::make(int(r.below(N_IDX)))));
    if(r.chance(1, 3)) dy[2] = std::get<0>(Weird<dyn_indices>::make(n_idx));
    vn = {lc::var_number(int(r.below(100000)) - 5), lc::var_number(int(r.below(100)) - 50, 7), lc::var_number(num[r.below(10)]),
          lc::var_number(0), lc::var_number(-3, 2), lc::var_number(-0.125)};
    for(int i = 0; i < NS; ++i) {
      st[i].sink.init(i == 0 ? 0 : i == 1 ? r.range(1, 15) : r.chance(1, 2) ? 0 : r.range(1, 4));
      st[i].os.rdbuf(&st[i].sink);
      if(r.chance(1, 4)) st[i].os.imbue(comma);
    }
    // caches of number formats are filled now
    std::ostringstream o;
    o.imbue(comma);
    o << 1.5 << 2 << true << std::setprecision(40) << 1.0 / 3;
    std::ostringstream o2;
    o2 << 1.5 << 2 << true;
  }

  struct Item {
    int kind, n;
  };
  static Item item(Rng& r) {
    Item it;
    static const int kinds[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 4};
    it.kind = kinds[r.below(10)];
    static const int count[] = {NX, NM, NG, ND, NV};
    it.n = int(r.below(u64(count[it.kind])));
    return it;
  }
  // independent text
  void expect(std::ostream& os, Item it) {
    switch(it.kind) {
    case 0: {
      Poly const& p = mx[std::size_t(it.n)];
      if(p.empty()) ctext(os, 0, S());
      bool first = true;
      for(auto const& t : p) {
        if(!first) os << " + ";
        first = false;
        ctext(os, t.second, S());
        if(!t.first.empty()) os << '*';
        os << wtext<I...>(t.first);
      }
      break;
    }
    case 1: os << wtext<I...>(mm[std::size_t(it.n)]); break;
    case 2: os << mg[std::size_t(it.n)]; break;
    case 3: os << itext(dy[std::size_t(it.n)]); break;
    default: {
      lc::var_number const& v = vn[std::size_t(it.n)];
      switch(v.number_type) {
      case lc::var_number::integer: os << int(v); break;
      case lc::var_number::rational: os << v.numerator() << '/' << v.denominator(); break;
      default: os << double(v);
      }
    }
    }
  }
  void put(std::ostream& os, Item it) {
    switch(it.kind) {
    case 0: os << x[std::size_t(it.n)]; break;
    case 1: os << m[std::size_t(it.n)]; break;
    case 2: os << *gs[std::size_t(it.n)]; break;
    case 3: os << dy[std::size_t(it.n)]; break;
    default: os << vn[std::size_t(it.n)]; break;
    }
  }
  void objects(const char* when) {
    for(int i = 0; i < NX; ++i)
      if(!same(read_expr(x[std::size_t(i)]), mx[std::size_t(i)]))
        fail("printing-changed-object", "%s %s: expression %d changed", what, when, i);
    for(int i = 0; i < NM; ++i)
      if(read_mono(m[std::size_t(i)]) != mm[std::size_t(i)])
        fail("printing-changed-object", "%s %s: monomial %d changed", what, when, i);
  }
  struct Settings {
    std::ios_base::fmtflags flags;
    std::streamsize prec, width;
    char fill;
    std::ios_base::iostate mask;
    std::locale loc;
    std::streambuf* buf;
    std::ostream* tie;
    explicit Settings(std::ostream& os)
      : flags(os.flags()), prec(os.precision()), width(os.width()), fill(os.fill()), mask(os.exceptions()), loc(os.getloc()),
        buf(os.rdbuf()), tie(os.tie()) {}
    bool operator==(Settings const& o) const {
      return flags == o.flags && prec == o.prec && width == o.width && fill == o.fill && mask == o.mask && loc == o.loc &&
             buf == o.buf && tie == o.tie;
    }
  };
  std::string full_text(Str const& s, std::vector<Item> const& items) {
    std::ostringstream o;
    o.flags(s.os.flags());
    o.precision(s.os.precision());
    o.fill(s.os.fill());
    o.imbue(s.os.getloc());
    for(std::size_t k = 0; k < items.size(); ++k) {
      if(k) o << ';';
      expect(o, items[k]);
    }
    return o.str();
  }
  static bool prefix(std::string const& a, std::string const& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }

  void print(Op const& op, int si, std::vector<Item> const& items) {
    Str& s = st[si];
    std::string full = full_text(s, items);
    std::ios_base::iostate pre = std::ios_base::goodbit, mask = s.os.exceptions();
    bool pre_broken = false;
    int seen = 0; // 1: ios_base::failure
    Settings set0(s.os);
    s.sink.style = op.a[2] % 2;
    s.sink.part = op.a[3];
    s.sink.stay = op.a[4] % 2;
    // Coefficients of type std::complex are printed through a string stream of the
    // standard library, which hides failing allocations
    unsigned off = 0;
    for(auto const& it : items)
      if(it.kind == 0 && std::is_same<S, cplx>::value) off = 1u << K_ALLOC;
    auto f = [&] {
      seen = 0;
      s.sink.threw = s.sink.refused = false;
      pre = s.os.rdstate();
      pre_broken = s.sink.broken;
      g.off = off;
      try {
        for(std::size_t k = 0; k < items.size(); ++k) {
          if(k) s.os << ';';
          put(s.os, items[k]);
        }
      } catch(std::ios_base::failure const&) {
        seen = 1;
      }
      g.off = 0;
    };
    auto verify = [&](Outcome o, Fault const* ft) {
      if(g.verbose) trace("  outcome %d fired %d refused %d state %x pre %x seen %d text %s", int(o), int(g.fired), int(s.sink.refused), unsigned(s.os.rdstate()), unsigned(pre), seen, s.sink.all().c_str());
      g.off = 0;
      std::string now = s.sink.all();
      if(!(Settings(s.os) == set0)) fail("settings-changed", "%s changed the settings of the stream", what);
      // a failing buffer may lose what it had already taken but not passed on
      bool lost = s.sink.refused && now.size() < s.content.size() && prefix(now, s.content);
      if(!lost && !prefix(s.content, now)) fail("wrong-text", "%s removed text from the stream", what);
      std::string got = lost ? std::string() : now.substr(s.content.size());
      std::ios_base::iostate state = s.os.rdstate();
      if((state & pre) != pre) fail("failure-hidden", "%s cleared the error state of the stream", what);
      if(pre != std::ios_base::goodbit) {
        probe(60);
        if(!got.empty()) fail("wrong-text", "%s wrote '%s' into a stream in an error state", what, got.c_str());
      } else {
        if(!prefix(got, full))
          fail("wrong-text", "%s put '%s' into the stream, which is no prefix of '%s'", what, got.c_str(), full.c_str());
        if(s.sink.refused) { // the buffer failed in this attempt
          bool masked = mask & std::ios_base::badbit;
          if(!(state & std::ios_base::badbit)) fail("failure-hidden", "%s: the stream does not show that its buffer failed", what);
          if(masked && s.sink.threw && o != FAILED)
            fail("failure-hidden", "%s: the exception of the buffer was not delivered", what);
          if(masked && !s.sink.threw && !seen) fail("failure-hidden", "%s: no exception although the stream is asked to throw", what);
          if(!masked && (o == FAILED || (seen && !(mask & std::ios_base::failbit)))) fail("failure-hidden", "%s: exception although the stream is not asked to throw", what);
          if(masked) probe(61);
        } else if(o == DONE) {
          if(got != full) fail("wrong-text", "%s wrote '%s' instead of '%s'", what, got.c_str(), full.c_str());
          if(state != std::ios_base::goodbit || seen) fail("spurious-error", "%s put the stream into an error state", what);
          if(!pre_broken && full.size() > 60) probe(62);
        }
      }
      (void)ft;
      log_str(got);
      log_u64(u64(state) * 4 + u64(seen));
      s.content = now;
      objects(o == DONE ? "completed" : "failed");
    };
    bool first = true;
    std::vector<Fault> fs = op.faults;
    for(auto const& ft : fs) {
      Outcome o = attempt(&ft, f, ft.kind == K_SINK);
      if(first)
        for(int k = 0; k < NKINDS; ++k) sh->points[sh->cur_op][k] += g.count[k];
      first = false;
      bool fired = g.fired;
      verify(o, &ft);
      if(!fired) return; // complete
      ++sh->retries;
      if(op.a[4] & 4 || o == FAILED || s.sink.refused) { // the user repairs the stream, or carries on as it is
        if(op.a[4] & 8) heal(s);
      }
    }
    if(op.giveup && !fs.empty()) {
      ++sh->giveups;
      return;
    }
    if(!fs.empty()) heal(s);
    Outcome o = attempt(nullptr, f);
    if(first)
      for(int k = 0; k < NKINDS; ++k) sh->points[sh->cur_op][k] += g.count[k];
    if(o != DONE) fail("spurious-error", "%s failed without a fault", what);
    verify(o, nullptr);
  }
  void heal(Str& s) {
    s.sink.reset();
    s.os.clear();
    s.content = s.sink.all();
  }

  void step(Op const& op) {
    what = code_name[op.code];
    Rng r(u64(op.a[5]) * 65599 + u64(op.a[1]));
    int si = op.a[0] % NS;
    Str& s = st[si];
    if(g.verbose) trace("op %d %s stream %d (flags %lx, mask %x, state %x): %s", sh->cur_op, what, si, long(s.os.flags()), unsigned(s.os.exceptions()), unsigned(s.os.rdstate()), full_text(s, {item(r)}).c_str()), r = Rng(u64(op.a[5]) * 65599 + u64(op.a[1]));
    switch(op.code) {
    case PRINT: print(op, si, {item(r)}); break;
    case CHAIN: {
      std::vector<Item> v;
      for(int k = r.range(2, 4); k > 0; --k) v.push_back(item(r));
      print(op, si, v);
      break;
    }
    case FORMAT: {
      std::ostream& os = s.os;
      switch(r.below(10)) {
      case 0: os << std::showpos; break;
      case 1: os << std::scientific; break;
      case 2: os << std::fixed; break;
      case 3: os.precision(int(r.below(20))); break;
      case 4: os << std::hex << std::showbase; break;
      case 5: os << std::uppercase; break;
      case 6: os << std::showpoint; break;
      case 7: os.fill('#'); os << (r.chance(1, 2) ? std::left : std::internal); break;
      case 8: os << std::boolalpha << std::oct; break;
      default: os.flags(std::ios_base::dec | std::ios_base::skipws); os.precision(6);
      }
      break;
    }
    case MASK: {
      static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::badbit,
                                                     std::ios_base::badbit | std::ios_base::failbit, std::ios_base::failbit};
      if(s.os.good()) s.os.exceptions(masks[r.below(4)]);
      break;
    }
    case REPAIR: heal(s); break;
    case SPOIL:
      if(s.os.exceptions() == std::ios_base::goodbit)
        s.os.setstate(r.chance(1, 2) ? std::ios_base::failbit : r.chance(1, 2) ? std::ios_base::eofbit : std::ios_base::badbit);
      break;
    case CHANGE: {
      std::size_t i = r.below(NX), j = r.below(NX);
      if(mx[i].size() + mx[j].size() < 9) {
        x[i] = x[i] - x[j];
        mx[i] = read_expr(x[i]);
      }
      break;
    }
    case COPYFMT: {
      Str& t = st[(si + 1) % NS];
      if(t.os.good() && s.os.good()) t.os.copyfmt(s.os);
      break;
    }
    case NESTED: { // the text of one object goes through the stream of another
      Item a = item(r), b = item(r);
      std::string fa, fb = full_text(s, {b});
      bool ok = perform(
          op,
          [&] {
            g.off = std::is_same<S, cplx>::value ? 1u << K_ALLOC : 0;
            QuietSink q1, q2;
            std::ostream o1(&q1), o2(&q2);
            o1.copyfmt(s.os);
            o1.exceptions(std::ios_base::goodbit);
            o2.copyfmt(o1);
            put(o1, a);
            put(o2, b);
            put(o1, b);
            g.off = 0;
            Pause p;
            fa = q1.s;
            if(q2.s != fb) fail("wrong-text", "an object prints as '%s' instead of '%s'", q2.s.c_str(), fb.c_str());
          },
          [&] {
            g.off = 0;
            objects("failed");
          });
      g.off = 0;
      if(ok && fa != full_text(s, {a}) + fb) fail("wrong-text", "two objects print as '%s'", fa.c_str());
      break;
    }
    }
  }
  void run() {
    for(std::size_t k = 0; k < plan.ops.size(); ++k) {
      sh->cur_op = int(k);
      between_ops();
      step(plan.ops[k]);
      if(k < MAX_OPS) sh->op_hash[k] = sh->hash;
    }
    objects("finally");
  }
};

void gen(Rng& r, Plan& p, int size) {
  p.cfg = {int(r.below(100000)), r.range(1, 4)};
  int n = size ? size : r.range(4, 22);
  static const int weight[NCODES] = {14, 8, 6, 3, 2, 1, 4, 1, 3};
  int sum = 0;
  for(int w : weight) sum += w;
  for(int i = 0; i < n; ++i) {
    Op o;
    int k = int(r.below(u64(sum)));
    for(o.code = 0; k >= weight[o.code]; ++o.code) k -= weight[o.code];
    for(int& a : o.a) a = int(r.below(1 << 15));
    p.ops.push_back(o);
  }
}

#if SIM_CONF == 0
typedef Run<Scal<0>, UIdx> TheRun;
#define SIM_NAME "S0"
#elif SIM_CONF == 1
typedef Run<double, std::string, int> TheRun;
#define SIM_NAME "S1"
#else
typedef Run<cplx, dyn_indices> TheRun;
#define SIM_NAME "S2"
#endif
void run(Plan const& p) {
  TheRun r(p);
  r.run();
}
std::string describe(Plan const&, Op const& o) {
  return std::string(code_name[o.code % NCODES]) + " stream " + std::to_string(o.a[0] % 3);
}
} // namespace
SIM_SCENARIO(S, SIM_NAME, gen, run, 1u << K_ALLOC | 1u << K_SCALAR | 1u << K_GEN | 1u << K_IDX | 1u << K_SINK, describe)
} // namespace sim
