#include "ops.hpp"

namespace sim {

SIM_TLS UHook uhook;

int space_for(Letter const& l, MHS const& hs) {
  for(std::size_t i = 0; i < hs.es.size(); ++i) {
    SD const& s = hs.es[i];
    if(s.alg == l.alg && s.idx == l.idx && (l.alg != lc::spin || s.par == l.mult)) return int(i);
  }
  return -1;
}
bool act(Letter const& l, MHS const& hs, u64& st, cplx& c) {
  int i = space_for(l, hs);
  if(i < 0) harness_error("generator %s acts nowhere", text(l).c_str());
  int b = hs.bit(std::size_t(i));
  SD const& s = hs.es[std::size_t(i)];
  u64 mask = ((u64(1) << n_bits(s)) - 1) << b;
  u64 n = (st & mask) >> b, m = n;
  if(l.alg == lc::fermion) {
    if(n == u64(l.a)) return false;
    m = u64(l.a);
    if(__builtin_popcountll(st & ((u64(1) << b) - 1)) & 1) c = -c;
  } else if(l.alg == lc::boson) {
    if(l.a) {
      if(n + 1 >= dim(s)) return false;
      c *= std::sqrt(double(n + 1));
      m = n + 1;
    } else {
      if(n == 0) return false;
      c *= std::sqrt(double(n));
      m = n - 1;
    }
  } else if(l.alg == lc::spin) {
    double S = double(l.mult - 1) / 2, z = double(n) - S;
    if(l.a == 0) {
      if(n + 1 >= u64(l.mult)) return false;
      c *= std::sqrt(S * (S + 1) - z * (z + 1));
      m = n + 1;
    } else if(l.a == 1) {
      if(n == 0) return false;
      c *= std::sqrt(S * (S + 1) - z * (z - 1));
      m = n - 1;
    } else {
      if(z == 0) return false;
      c *= z;
    }
  } else if(l.alg == CLIFF) {
    if(l.a == 0)
      m = 1 - n;
    else if(n)
      c = -c;
  } else if(l.alg == TRI) {
    if(n == 1) return false;
    if(n == 2) c = -c;
  } else
    m = (n + 1) % 3;
  st = (st & ~mask) | (m << b);
  return true;
}
Amp act(Poly const& p, MHS const& hs, Amp const& in) {
  Amp r;
  double scale = 0;
  for(auto const& a : in)
    for(auto const& t : p) {
      u64 st = a.first;
      cplx c = t.second * a.second;
      bool nz = true;
      for(std::size_t k = t.first.size(); nz && k-- > 0;) nz = act(t.first[k], hs, st, c);
      if(nz) {
        r[st] += c;
        scale = std::max(scale, std::abs(c));
      }
    }
  prune(r, scale);
  return r;
}
Amp act(Poly const& p, MHS const& hs, u64 st) {
  Amp a;
  a[st] = 1;
  return act(p, hs, a);
}
bool fragile(Poly const& p, MHS const& hs, u64 st) {
  bool irrational = false;
  for(auto const& t : p)
    for(auto const& l : t.first) irrational = irrational || l.alg == lc::boson || (l.alg == lc::spin && l.mult > 2);
  if(!irrational) return false;
  std::map<u64, std::pair<cplx, double>> r;
  for(auto const& t : p) {
    u64 s = st;
    cplx c = t.second;
    bool nz = true;
    for(std::size_t k = t.first.size(); nz && k-- > 0;) nz = act(t.first[k], hs, s, c);
    if(nz) {
      r[s].first += c;
      r[s].second += std::abs(c);
    }
  }
  for(auto const& x : r)
    if(std::abs(x.second.first) < 1e-8 * x.second.second) return true;
  return false;
}
void prune(Amp& a, double scale) {
  for(auto it = a.begin(); it != a.end();)
    if(std::abs(it->second) <= 1e-12 * scale)
      it = a.erase(it);
    else
      ++it;
}
static double norm(Amp const& a) {
  double s = 0;
  for(auto const& x : a) s = std::max(s, std::abs(x.second));
  return s;
}
bool close(Amp const& a, Amp const& b) {
  double tol = 1e-9 * std::max(1.0, std::max(norm(a), norm(b)));
  for(auto const& x : a) {
    auto it = b.find(x.first);
    if(!(std::abs(x.second - (it == b.end() ? 0.0 : it->second)) <= tol)) return false;
  }
  for(auto const& x : b)
    if(!a.count(x.first) && !(std::abs(x.second) <= tol)) return false;
  return true;
}
std::string text(Amp const& a) {
  std::string s;
  char b[96];
  int n = 0;
  for(auto const& x : a) {
    if(++n > 10) {
      s += " ...";
      break;
    }
    snprintf(b, sizeof b, "%s|%llu>(%g%+gi)", s.empty() ? "" : " ", (unsigned long long)x.first, x.second.real(), x.second.imag());
    s += b;
  }
  return "[" + s + "]";
}
void log_amp(Amp const& a) {
  log_u64(a.size());
  for(auto const& x : a) {
    log_u64(x.first);
    log_dbl(x.second.real());
    log_dbl(x.second.imag());
  }
}
Letter letter_on(Rng& r, MHS const& hs) {
  SD const& s = hs.es[r.below(hs.es.size())];
  Letter l{s.alg, s.idx, int(r.below(2)), 0};
  if(s.alg == lc::spin) {
    l.mult = int(s.par);
    l.a = int(r.below(3));
  } else if(s.alg == CLIFF)
    l.a = 2 * int(r.below(2));
  else if(s.alg >= 0)
    l.a = 0;
  return l;
}
SD random_space(Rng& r, int n_idx, int kinds, long max_dim) {
  SD s;
  s.idx = int(r.below(u64(n_idx)));
  for(;;) {
    switch(r.below(7)) {
    case 0: case 1: s.alg = lc::fermion; s.par = 2; break;
    case 2: s.alg = lc::boson; s.par = r.range(1, 9); break;
    case 3: s.alg = lc::spin; s.par = r.chance(1, 2) ? 2 : r.range(2, 5); break;
    case 4: s.alg = CLIFF; s.par = 2; break;
    case 5: s.alg = TRI; s.par = 3; break;
    default: s.alg = CYC; s.par = 3;
    }
    if(!(kinds & 1) && s.alg == lc::fermion) continue;
    if(!(kinds & 2) && s.alg == lc::boson) continue;
    if(!(kinds & 4) && s.alg == lc::spin) continue;
    if(!(kinds & 8) && s.alg >= 0) continue;
    if(s.par > max_dim && s.par > 2) s.par = max_dim > 2 && s.alg < 0 ? max_dim : s.par;
    return s;
  }
}

} // namespace sim
