#include "spaces.hpp"

namespace sim {

std::string text(Letter const& l) {
  static const char* const names[] = {"L", "G", "Q", "T", "U", "P"};
  std::string s;
  if(l.alg == lc::fermion)
    s = l.a ? "c+" : "c";
  else if(l.alg == lc::boson)
    s = l.a ? "a+" : "a";
  else if(l.alg == lc::spin)
    s = "S[" + std::to_string(l.mult) + "]" + (l.a == 0 ? "+" : l.a == 1 ? "-" : "z");
  else
    s = (l.alg >= 0 && l.alg < 5 ? std::string(names[l.alg]) : "?") + std::to_string(l.a) + "_";
  return s + std::to_string(l.idx);
}
std::string text(Word const& w) {
  std::string s;
  for(auto const& l : w) s += (s.empty() ? "" : " ") + text(l);
  return s.empty() ? "1" : s;
}
std::string text(Poly const& p) {
  std::string s;
  char b[80];
  int n = 0;
  for(auto const& t : p) {
    if(++n > 12) {
      s += " ...";
      break;
    }
    snprintf(b, sizeof b, "%s(%g%+gi)*", s.empty() ? "" : " + ", t.second.real(), t.second.imag());
    s += b + text(t.first);
  }
  return s.empty() ? "0" : s;
}
bool same(Poly const& a, Poly const& b) {
  if(a.size() != b.size()) return false;
  for(std::size_t i = 0; i < a.size(); ++i)
    if(a[i].first != b[i].first || a[i].second != b[i].second) return false;
  return true;
}
Dict dict(Poly const& p) {
  Dict d;
  for(auto const& t : p) d[t.first] += t.second;
  return d;
}
Poly poly(Dict const& d) {
  Poly p;
  for(auto const& t : d)
    if(t.second != 0.0) p.push_back(t);
  return p;
}
void log_poly(Poly const& p) {
  log_u64(p.size());
  for(auto const& t : p) {
    for(auto const& l : t.first) log_u64(u64(l.alg + 10) << 40 ^ u64(l.idx) << 24 ^ u64(l.a + 1000) << 8 ^ u64(l.mult));
    log_dbl(t.second.real());
    log_dbl(t.second.imag());
  }
}
double max_coeff(Poly const& p) {
  double m = 0;
  for(auto const& t : p) m = std::max(m, std::abs(t.second));
  return m;
}

void check_canonical(Poly const& p, const char* where) {
  for(std::size_t i = 0; i < p.size(); ++i) {
    Word const& w = p[i].first;
    cplx c = p[i].second;
    if(c == 0.0) fail("zero-term", "%s: a term with a vanishing coefficient is stored: %s", where, text(p).c_str());
    if(!(std::abs(c) < 1e200)) fail("bad-coefficient", "%s: meaningless coefficient of %s", where, text(w).c_str());
    if(i && !(cmp(p[i - 1].first, w) < 0))
      fail("term-order", "%s: terms %s and %s are stored in a wrong order or twice", where, text(p[i - 1].first).c_str(),
           text(w).c_str());
    int run = 1;
    for(std::size_t j = 1; j < w.size(); ++j) {
      Letter const& x = w[j - 1];
      Letter const& y = w[j];
      if(cmp(x, y) > 0) fail("not-canonical", "%s: monomial %s is not ordered", where, text(w).c_str());
      bool bad = false;
      if(x == y) {
        ++run;
        if(x.alg == lc::fermion) bad = true;
        if(x.alg == lc::spin && x.a != 2 && run >= x.mult) bad = true;
        if(x.alg == CLIFF || x.alg == PROJ) bad = true;
        if((x.alg == TRI || x.alg == CYC) && run >= 3) bad = true;
      } else
        run = 1;
      if(x.alg == lc::spin && y.alg == lc::spin && x.mult == 2 && y.mult == 2 && x.idx == y.idx) bad = true;
      if(x.alg == QUAT && y.alg == QUAT && x.idx == y.idx) bad = true;
      if(bad) fail("not-canonical", "%s: monomial %s can be simplified", where, text(w).c_str());
    }
  }
}

bool RepState::operator<(RepState const& o) const {
  auto v = [](RepState const& s) { return reinterpret_cast<const char*>(&s); };
  return memcmp(v(*this), v(o), sizeof(RepState)) < 0;
}

bool apply(Letter const& l, RepState& s, cplx& c) {
  switch(l.alg) {
  case lc::fermion: {
    if(s.f[l.idx] == l.a) return false;
    int sg = 0;
    for(int i = 0; i < l.idx; ++i) sg ^= s.f[i];
    if(sg) c = -c;
    s.f[l.idx] = (signed char)l.a;
    return true;
  }
  case lc::boson:
    if(l.a)
      ++s.b[l.idx];
    else {
      if(s.b[l.idx] == 0) return false;
      c *= double(s.b[l.idx]);
      --s.b[l.idx];
    }
    return true;
  case lc::spin: {
    signed char& m = s.s[l.idx][l.mult - 2];
    int ts = l.mult - 1;
    if(l.a == 0) {
      if(m == ts) return false;
      c *= double(ts - m);
      ++m;
    } else if(l.a == 1) {
      if(m == 0) return false;
      c *= double(m);
      --m;
    } else {
      double z = m - ts / 2.0;
      if(z == 0) return false;
      c *= z;
    }
    return true;
  }
  case WITT: {
    long& k = s.w[l.idx & 1];
    if(k == 0) return false;
    c *= -double(k);
    k += l.a;
    return true;
  }
  case CLIFF: { // gamma_0 = X1, gamma_1 = Y1, gamma_2 = Z1 X2
    signed char& q = s.cl[l.idx & 1];
    int b0 = q & 1, b1 = q >> 1 & 1;
    if(l.a == 0) {
      b0 ^= 1;
    } else if(l.a == 1) {
      c *= b0 ? cplx(0, -1) : cplx(0, 1);
      b0 ^= 1;
    } else {
      if(b0) c = -c;
      b1 ^= 1;
    }
    q = (signed char)(b0 | b1 << 1);
    return true;
  }
  case QUAT: { // i = -iX, j = -iY, k = -iZ
    signed char& q = s.q[l.idx & 1];
    if(l.a == 0) {
      c *= cplx(0, -1);
      q ^= 1;
    } else if(l.a == 1) {
      c *= cplx(0, -1) * (q ? cplx(0, -1) : cplx(0, 1));
      q ^= 1;
    } else {
      c *= cplx(0, -1) * (q ? -1.0 : 1.0);
    }
    return true;
  }
  case TRI: {
    signed char& q = s.t[l.idx & 1];
    if(q == 0) return false;
    q = (signed char)(3 - q);
    return true;
  }
  case CYC: {
    signed char& q = s.u[l.idx & 1];
    q = (signed char)((q + 1) % 3);
    return true;
  }
  case PROJ: return s.p[l.idx & 1];
  default: fail("bad-generator", "a generator of an unknown algebra %d", l.alg);
  }
}

static RepState random_state(Rng& r) {
  RepState s;
  memset(static_cast<void*>(&s), 0, sizeof s);
  for(int i = 0; i < N_IDX; ++i) {
    s.f[i] = (signed char)r.below(2);
    s.b[i] = long(r.below(5));
    for(int m = 0; m < 4; ++m) s.s[i][m] = (signed char)r.below(u64(m + 2));
  }
  for(int i = 0; i < 2; ++i) {
    s.w[i] = long(r.range(-3, 9));
    s.cl[i] = (signed char)r.below(4);
    s.q[i] = (signed char)r.below(2);
    s.t[i] = (signed char)r.below(3);
    s.u[i] = (signed char)r.below(3);
    s.p[i] = (signed char)r.below(2);
  }
  return s;
}
// Adjusts a state so that word `w` is less likely to annihilate it
static void target(RepState& s, Word const& w, Rng& r) {
  bool seen[N_IDX] = {};
  for(std::size_t j = w.size(); j-- > 0;) {
    Letter const& l = w[j];
    if(l.alg == lc::fermion && !seen[l.idx]) {
      s.f[l.idx] = (signed char)!l.a;
      seen[l.idx] = true;
    }
    if(l.alg == lc::boson && !l.a) s.b[l.idx] = long(w.size() + r.below(3));
    if(l.alg == WITT) s.w[l.idx & 1] = 17 + long(r.below(5));
    if(l.alg == TRI && !s.t[l.idx & 1]) s.t[l.idx & 1] = 1;
  }
  for(std::size_t j = w.size(); j-- > 0;) {
    Letter const& l = w[j];
    if(l.alg == lc::spin) {
      int up = 0, dn = 0;
      for(auto const& k : w)
        if(k.alg == lc::spin && k.idx == l.idx && k.mult == l.mult) {
          up += k.a == 0;
          dn += k.a == 1;
        }
      int ts = l.mult - 1;
      int lo = std::max(0, dn - up), m = lo;
      if(dn >= up) m = std::min(ts, dn);
      else m = std::max(0, std::min(ts - up, ts));
      if(up == dn) m = int(r.below(u64(ts + 1)));
      s.s[l.idx][l.mult - 2] = (signed char)m;
    }
  }
}

typedef std::map<RepState, std::pair<cplx, double>> Vec;
static void act(Poly const& p, RepState const& s0, Vec& out, double sign) {
  for(auto const& t : p) {
    RepState s = s0;
    cplx c = t.second * sign;
    bool alive = true;
    for(std::size_t j = t.first.size(); j-- > 0 && alive;) alive = apply(t.first[j], s, c);
    if(!alive) continue;
    auto& o = out[s];
    o.first += c;
    o.second += std::abs(c);
  }
}

void check_equal_action(Poly const& got, Poly const& model, u64 seed, const char* where) {
  Rng r(seed);
  int n_t = 0;
  std::size_t ng = got.size(), nm = model.size();
  for(int k = 0; k < 14; ++k) {
    RepState s = random_state(r);
    if(k >= 4) {
      if(k & 1) {
        if(ng) target(s, got[r.below(ng)].first, r);
      } else if(nm)
        target(s, model[r.below(nm)].first, r);
    }
    Vec v;
    act(got, s, v, 1);
    act(model, s, v, -1);
    for(auto const& e : v)
      if(std::abs(e.second.first) > 1e-9 * (1 + e.second.second))
        fail("wrong-value", "%s: result %s acts differently from the expected %s", where, text(got).c_str(),
             text(model).c_str());
    ++n_t;
  }
}

std::string text(SD const& s) {
  static const char* const n[] = {"fermion", "boson", "spin"};
  std::string r = s.alg < 0 ? n[s.alg + 3] : "user" + std::to_string(s.alg);
  r += "_" + std::to_string(s.idx);
  if(s.alg != lc::fermion) r += "[" + std::to_string(s.par) + "]";
  return r;
}
std::string text(MHS const& m) {
  std::string r;
  for(auto const& s : m.es) r += (r.empty() ? "" : " x ") + text(s);
  return "{" + r + "}";
}

} // namespace sim
