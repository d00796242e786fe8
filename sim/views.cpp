// Construction of state vectors and views of all kinds.
#if SIM_CONF == 1
#include "eigen.hpp" // before everything else
#endif

#include "views.hpp"

namespace sim {

#if SIM_CONF == 0
typedef Scal<0> S_;
#define SIM_IND UIdx
static const VKind kinds_[] = {
    {"std::vector", VEC, ST_VECTOR, false, false, 0},
    {"compressed view of a std::vector (by reference)", COMP, ST_VECTOR, true, true, 0},
    {"compressed view of a std::vector (by value)", COMP, ST_VECTOR, false, false, 0},
    {"mapped view of a std::vector (by reference)", MAPPED, ST_VECTOR, true, false, 0},
    {"mapped view of a std::vector (by value)", MAPPED, ST_VECTOR, false, false, 0},
    {"sector view of a std::vector (by reference)", NFS, ST_VECTOR, true, true, 0},
    {"multisector view of a std::vector (by reference)", NFMS, ST_VECTOR, true, false, 0},
    {"multisector view of a std::vector (by value)", NFMS, ST_VECTOR, false, false, 0},
    {"sparse vector", VEC, ST_SPARSE, false, false, 0},
    {"mapped view of a sparse vector (by reference)", MAPPED, ST_SPARSE, true, false, 0},
};
#elif SIM_CONF == 1
typedef double S_;
#define SIM_IND int
static const VKind kinds_[] = {
    {"sparse vector", VEC, ST_SPARSE, false, false, 0},
    {"compressed view of a sparse vector (by reference)", COMP, ST_SPARSE, true, false, 0},
    {"mapped view of a sparse vector (by value)", MAPPED, ST_SPARSE, false, false, 0},
    {"staggered sector view of a sparse vector (by reference)", NFS, ST_SPARSE, true, false, 0},
    {"staggered multisector view of a sparse vector (by reference)", NFMS, ST_SPARSE, true, true, 0},
    {"trie sector view of a std::vector (by value)", NFS, ST_VECTOR, false, false, 16},
    {"trie multisector view of a std::vector (by reference)", NFMS, ST_VECTOR, true, false, 16},
    {"Eigen vector", VEC, ST_EIGEN, false, false, 0},
    {"compressed view of an Eigen vector (by reference)", COMP, ST_EIGEN, true, false, 0},
};
#else
typedef cplx S_;
#define SIM_IND dyn_indices
static const VKind kinds_[] = {
    {"user vector", VEC, ST_USER, false, false, 0},
    {"sparse vector", VEC, ST_SPARSE, false, false, 0},
    {"compressed view of a user vector (by reference)", COMP, ST_USER, true, true, 0},
    {"mapped view of a user vector (by reference)", MAPPED, ST_USER, true, true, 0},
    {"sector view of a user vector (by value)", NFS, ST_USER, false, false, 0},
    {"multisector view of a user vector (by reference)", NFMS, ST_USER, true, true, 0},
    {"std::vector", VEC, ST_VECTOR, false, false, 0},
};
#endif

typedef VSpace<S_, SIM_IND> VS;

template <> int VS::n_kinds() { return int(sizeof(kinds_) / sizeof(kinds_[0])); }
template <> VKind const& VS::kind(int k) { return kinds_[k]; }

// mode 0: any space, 1: dense space with fermions, 2: large space
template <class S, typename... I> VSpace<S, I...>::VSpace(Rng& r, int mode, int kinds) : big(mode == 2) {
  int max_bits = mode == 2 ? 40 + int(r.below(24)) : 8;
  u64 max_dim = mode == 2 ? ~u64(0) : 128;
  if(mode) {
    int nf = mode == 2 ? (r.chance(1, 3) ? (r.chance(1, 2) ? 63 : r.range(56, 62)) : r.range(10, 62)) : r.range(2, 7);
    bool wide = mode == 2 && r.chance(1, 4); // single spaces with very many states
    if(wide) nf = r.range(0, 12);
    if(nf > 56) max_bits = 63;
    for(int k = 0; k < nf; ++k) {
      // N_IDX distinct indices are not enough for large spaces
      SD s{lc::fermion, mode == 2 && (std::is_same<std::tuple<I...>, std::tuple<int>>::value || std::is_same<std::tuple<I...>, std::tuple<UIdx>>::value) ? k : k % (2 * N_IDX), 2};
      m.insert(s);
    }
  }
  int ns = r.range(mode ? 0 : 1, 5);
  for(int k = 0; k < ns; ++k) {
    SD s = random_space(r, 4, kinds, 7);
    if(mode == 2 && r.chance(1, 2)) s = SD{lc::boson, int(r.below(4)), 1L << r.range(1, 12)};
    if(mode == 2 && m.bits() < 20 && r.chance(1, 2)) s = SD{lc::boson, int(r.below(4)), r.chance(1, 2) ? 1L << r.range(12, 40) : (1L << r.range(12, 40)) - r.range(1, 9)};
    if(mode && r.chance(2, 3) && (dim(s) & (dim(s) - 1))) continue; // stay dense
    MHS t = m;
    t.insert(s);
    if(t.bits() > max_bits || (mode != 2 && t.dim() > max_dim)) continue;
    m = t;
  }
  if(m.bits() == 0) m.insert(SD{lc::fermion, 0, 2});
  for(auto const& s : m.es) hs.add(*make_es<I...>(s));
  for(std::size_t k = 0; k < m.es.size(); ++k)
    if(m.es[k].alg == lc::fermion) {
      fmask |= u64(1) << m.bit(k);
      ++M;
    }
}

template <class S, typename... I> bool VSpace<S, I...>::possible(int k) const {
  VKind const& v = kind(k);
  if(big && (v.storage == ST_VECTOR || v.storage == ST_EIGEN) && v.shape != MAPPED && v.shape != NFS && v.shape != NFMS) return false;
  if((v.shape == NFS || v.shape == NFMS) && m.sparse()) return false;
  if(v.max_m && M > v.max_m) return false;
  return true;
}

template <class S, typename... I>
void VSpace<S, I...>::rec(int b, u64 st, std::vector<MaskN> const& masks, std::vector<int>& left, std::vector<u64>& r) const {
  u64 low = b < 0 ? 0 : (b >= 63 ? ~u64(0) : (u64(1) << (b + 1)) - 1);
  for(std::size_t s = 0; s < masks.size(); ++s)
    if(left[s] < 0 || left[s] > __builtin_popcountll(masks[s].first & low)) return;
  if(b < 0) {
    r.push_back(st);
    return;
  }
  int s = -1;
  for(std::size_t q = 0; q < masks.size(); ++q)
    if(masks[q].first >> b & 1) s = int(q);
  rec(b - 1, st, masks, left, r);
  if(s >= 0) --left[std::size_t(s)];
  rec(b - 1, st | u64(1) << b, masks, left, r);
  if(s >= 0) ++left[std::size_t(s)];
}
template <class S, typename... I> std::vector<u64> VSpace<S, I...>::sector_states(std::vector<MaskN> const& masks) const {
  std::vector<u64> r;
  std::vector<int> left;
  for(auto const& s : masks) left.push_back(s.second);
  rec(m.bits() - 1, 0, masks, left, r);
  return r;
}
template <class S, typename... I> double VSpace<S, I...>::sector_count(std::vector<MaskN> const& masks) const {
  u64 all = 0;
  double c = 1;
  for(auto const& s : masks) {
    all |= s.first;
    int n = __builtin_popcountll(s.first);
    if(s.second > n) return 0;
    for(int k = 0; k < s.second; ++k) c = c * (n - k) / (k + 1);
  }
  return std::floor(c * std::pow(2.0, m.bits() - __builtin_popcountll(all)) + 0.5);
}
template <class S, typename... I> u64 VSpace<S, I...>::sample(Rng& r, std::vector<MaskN> const& masks) const {
  u64 all = 0, st = 0;
  for(auto const& s : masks) {
    all |= s.first;
    std::vector<int> bits;
    for(int b = 0; b < 64; ++b)
      if(s.first >> b & 1) bits.push_back(b);
    for(int k = 0; k < s.second; ++k) {
      std::size_t q = std::size_t(k) + std::size_t(r.below(bits.size() - std::size_t(k)));
      std::swap(bits[std::size_t(k)], bits[q]);
      st |= u64(1) << bits[std::size_t(k)];
    }
  }
  u64 rest = (m.bits() >= 64 ? ~u64(0) : (u64(1) << m.bits()) - 1) & ~all;
  return st | (r.next() & rest);
}
// All particles at one end of their sector (given by a bit for every sector), all other bits equal (0th bit)
template <class S, typename... I> u64 VSpace<S, I...>::extreme(std::vector<MaskN> const& masks, unsigned ends) const {
  u64 all = 0, st = 0;
  bool rest = ends & 1;
  for(auto const& s : masks) {
    all |= s.first;
    int left = s.second;
    bool high = (ends >>= 1) & 1;
    for(int k = 0; k < 64 && left; ++k) {
      int b = high ? 63 - k : k;
      if(s.first >> b & 1) {
        st |= u64(1) << b;
        --left;
      }
    }
  }
  return st | (rest ? ((m.bits() >= 64 ? ~u64(0) : (u64(1) << m.bits()) - 1) & ~all) : 0);
}
// 0: too many
template <class S, typename... I> u64 VSpace<S, I...>::exact_count(std::vector<MaskN> const& masks) const {
  u64 all = 0;
  unsigned __int128 c = 1;
  for(auto const& s : masks) {
    all |= s.first;
    unsigned __int128 b = 1;
    int n = __builtin_popcountll(s.first);
    if(s.second > n) return 0;
    for(int k = 0; k < s.second; ++k) b = b * unsigned(n - k) / unsigned(k + 1);
    c *= b;
    if(c >> 62) return 0;
  }
  int rest = m.bits() - __builtin_popcountll(all);
  if(rest > 62 || (c << rest) >> 62) return 0;
  return u64(c << rest);
}
template <class S, typename... I>
void VSpace<S, I...>::random_sectors(Rng& r, std::vector<SDesc>& s, std::vector<MaskN>& masks) const {
  int n = big && r.chance(1, 3) ? r.range(3, 6) : r.range(0, 3);
  int few = r.range(0, 2);
  bool half = big && r.chance(1, 2); // half filling: very many states
  std::vector<SDesc> d;
  d.resize(std::size_t(n));
  masks.assign(std::size_t(n), MaskN(0, 0));
  for(std::size_t k = 0; n && k < m.es.size(); ++k) {
    if(m.es[k].alg != lc::fermion || r.chance(few, 4)) continue;
    std::size_t q = std::size_t(r.below(u64(n)));
    d[q].indices.insert(Indices<I...>::make(m.es[k].idx));
    masks[q].first |= u64(1) << m.bit(k);
  }
  for(std::size_t q = 0; q < d.size(); ++q) {
    int c = __builtin_popcountll(masks[q].first);
    int N = r.range(0, c);
    if(half) N = c / 2;
    else if(big && r.chance(3, 4)) N = r.chance(1, 2) ? r.range(0, std::min(c, 2)) : r.range(c - std::min(c, 2), c);
    d[q].N = unsigned(N);
    masks[q].second = N;
  }
  s.swap(d);
}

template <class S> static std::shared_ptr<void> make_store(int st, u64 n) {
  switch(st) {
  case ST_VECTOR: return std::make_shared<std::vector<S>>(n, from_c<S>::make(0));
  case ST_SPARSE: return std::make_shared<lc::sparse_state_vector<S>>(n);
  case ST_USER: return std::make_shared<UVec<S>>(n);
#if SIM_CONF == 1
  case ST_EIGEN: {
    auto p = std::make_shared<Eigen::VectorXd>(long(n));
    p->setZero();
    return p;
  }
#endif
  default: harness_error("storage"); return nullptr;
  }
}

template <class S, typename... I> auto VSpace<S, I...>::prepare(Rng& r, int k) const -> Proto {
  Proto p;
  p.k = k;
  VKind const& vk = kind(k);
  p.model = std::make_shared<VModel>();
  p.model->name = vk.name;
  auto& keys = p.model->keys;
  u64 limit = 600;
  switch(vk.shape) {
  case VEC:
  case COMP: {
    p.size = vk.shape == VEC ? u64(1) << m.bits() : m.dim();
    p.full = !big;
    if(!big)
      for(u64 i = 0; i < p.size; ++i) keys.push_back(vk.shape == VEC ? i : m.state(i));
    else {
      std::set<u64> ks;
      ks.insert(m.state(0));
      ks.insert(m.state(m.dim() - 1));
      for(int i = 0; i < 24; ++i) ks.insert(m.state(r.below(m.dim())));
      keys.assign(ks.begin(), ks.end());
    }
    p.model->each = !big || vk.shape == VEC; // compressed views go through all states
    break;
  }
  case MAPPED: {
    std::set<u64> ks;
    u64 n = 1 + r.below(24);
    for(u64 i = 0; i < n; ++i) ks.insert(r.chance(1, 6) ? r.next() : m.state(r.below(m.dim())));
    std::vector<lc::sv_index_type> list(ks.begin(), ks.end());
    for(std::size_t i = list.size(); i > 1; --i) std::swap(list[i - 1], list[std::size_t(r.below(i))]);
    p.mapper = std::make_shared<lc::basis_mapper>(list);
    keys.assign(list.begin(), list.end());
    p.size = list.size();
    p.full = true;
    break;
  }
  case NFS: {
    p.n = r.range(0, M);
    if(big && r.chance(3, 4)) p.n = r.chance(1, 2) ? r.range(0, std::min(M, 2)) : r.range(M - std::min(M, 2), M);
    p.masks.push_back(MaskN(fmask, p.n));
    break;
  }
  case NFMS: random_sectors(r, p.sectors, p.masks); break;
  }
  if(vk.shape == NFS || vk.shape == NFMS) {
    double c = sector_count(p.masks);
    if((vk.storage == ST_VECTOR || vk.storage == ST_EIGEN) && c > 5000) { // fall back to a sector that fits
      for(auto& x : p.masks) x.second = 0;
      for(auto& x : p.sectors) x.N = 0;
      p.n = 0;
      c = sector_count(p.masks);
    }
    if(c <= double(limit)) {
      keys = sector_states(p.masks);
      if(keys.size() != std::size_t(c)) harness_error("sector count %g, states %zu", c, keys.size());
      p.full = true;
    } else {
      std::set<u64> ks;
      for(int i = 0; i < 30; ++i) ks.insert(sample(r, p.masks));
      for(unsigned i = 0; i < 2u << p.masks.size() && i < 32; ++i) ks.insert(extreme(p.masks, i));
      keys.assign(ks.begin(), ks.end());
      p.model->each = c <= 5000;
      p.model->ordered = false;
    }
    p.exact = exact_count(p.masks);
    p.size = p.exact ? p.exact : c < 9e18 ? u64(c) : u64(1) << 63; // (rounded for very large sectors)
    if((vk.storage == ST_VECTOR || vk.storage == ST_EIGEN) && c > 5000) p.k = -1; // cannot be
  }
  if(vk.storage == ST_SPARSE && vk.shape == VEC) p.model->ordered = false;
  if(vk.shape == MAPPED) p.model->ordered = false;
  if(p.k >= 0) p.store = make_store<S>(vk.storage, p.size);
  return p;
}
template <class S, typename... I> auto VSpace<S, I...>::fresh(Proto const& p) const -> Proto {
  Proto q = p;
  q.store = make_store<S>(kind(p.k).storage, p.size);
  q.model = std::make_shared<VModel>(*p.model);
  q.model->amp.clear();
  q.model->loose.clear();
  return q;
}

template <class T> static T& as(std::shared_ptr<void> const& p) { return *static_cast<T*>(p.get()); }

template <> auto VS::build(Proto const& p, bool constant) const -> Ptr {
  typedef std::vector<S_> DV;
  typedef lc::sparse_state_vector<S_> SV;
  typedef UVec<S_> UV;
  (void)sizeof(DV);
  (void)sizeof(SV);
  (void)sizeof(UV);
  switch(p.k) {
#if SIM_CONF == 0
  case 0: return make(p, DV(as<DV>(p.store)));
  case 1: return constant ? make(p, lc::make_const_comp_state_view(as<DV>(p.store), hs)) : make(p, lc::make_comp_state_view(as<DV>(p.store), hs));
  case 2: return make(p, lc::make_comp_state_view(DV(as<DV>(p.store)), hs));
  case 3: return make(p, p.mapper->make_view(as<DV>(p.store)));
  case 4: return make(p, p.mapper->make_view(DV(as<DV>(p.store))));
  case 5:
    return constant ? make(p, lc::make_const_nfs_view(as<DV>(p.store), hs, unsigned(p.n)))
                    : make(p, lc::make_nfs_view(as<DV>(p.store), hs, unsigned(p.n)));
  case 6: return make(p, lc::make_nfms_view(as<DV>(p.store), hs, p.sectors));
  case 7: return make(p, lc::make_nfms_view(DV(as<DV>(p.store)), hs, p.sectors));
  case 8: return make(p, SV(p.size));
  case 9: return make(p, p.mapper->make_view(as<SV>(p.store)));
#elif SIM_CONF == 1
  case 0: return make(p, SV(as<SV>(p.store)));
  case 1: return make(p, lc::make_comp_state_view(as<SV>(p.store), hs));
  case 2: return make(p, p.mapper->make_view(SV(as<SV>(p.store))));
  case 3: return make(p, lc::n_fermion_sector_view<SV, true, lc::staggered_ranking<3>>(as<SV>(p.store), hs, unsigned(p.n)));
  case 4:
    return constant ? make(p, lc::n_fermion_multisector_view<SV const, true, lc::staggered_ranking<2>>(as<SV>(p.store), hs, p.sectors))
                    : make(p, lc::n_fermion_multisector_view<SV, true, lc::staggered_ranking<2>>(as<SV>(p.store), hs, p.sectors));
  case 5: return make(p, lc::n_fermion_sector_view<DV, false, lc::trie_ranking<3>>(DV(as<DV>(p.store)), hs, unsigned(p.n)));
  case 6: return make(p, lc::n_fermion_multisector_view<DV, true, lc::trie_ranking<2>>(as<DV>(p.store), hs, p.sectors));
  case 7: return make(p, Eigen::VectorXd(as<Eigen::VectorXd>(p.store)));
  case 8: return make(p, lc::make_comp_state_view(as<Eigen::VectorXd>(p.store), hs));
#else
  case 0: return make(p, UV(as<UV>(p.store)));
  case 1: return make(p, SV(p.size));
  case 2: return constant ? make(p, lc::make_const_comp_state_view(as<UV>(p.store), hs)) : make(p, lc::make_comp_state_view(as<UV>(p.store), hs));
  case 3: return constant ? make(p, p.mapper->make_const_view(as<UV>(p.store))) : make(p, p.mapper->make_view(as<UV>(p.store)));
  case 4: return make(p, lc::make_nfs_view(UV(as<UV>(p.store)), hs, unsigned(p.n)));
  case 5:
    return constant ? make(p, lc::make_const_nfms_view(as<UV>(p.store), hs, p.sectors)) : make(p, lc::make_nfms_view(as<UV>(p.store), hs, p.sectors));
  case 6: return make(p, DV(as<DV>(p.store)));
#endif
  }
  harness_error("vector kind %d", p.k);
}

// Every basis state has a slot of its own (no faults)
template <class S, typename... I> void VSpace<S, I...>::check_slots(Proto const& p, AnyVec<S> const& v) const {
  quiet([&] {
    if(!v.view()) return;
    std::vector<std::pair<u64, u64>> slots;
    for(u64 n : p.model->keys) {
      u64 s = v.slot(n);
      if(p.size < (u64(1) << 52) && s >= p.size)
        fail("bad-slot", "%s: amplitude %llu is in slot %llu of %llu", kind(p.k).name, (unsigned long long)n, (unsigned long long)s, (unsigned long long)p.size);
      slots.emplace_back(s, n);
    }
    std::sort(slots.begin(), slots.end());
    for(std::size_t i = 1; i < slots.size(); ++i)
      if(slots[i].first == slots[i - 1].first)
        fail("bad-slot", "%s: amplitudes %llu and %llu share a slot", kind(p.k).name, (unsigned long long)slots[i].second, (unsigned long long)slots[i - 1].second);
    VKind const& vk = kind(p.k);
    if((vk.shape == NFS || vk.shape == NFMS) && p.exact) {
      u64 lo = ~u64(0), hi = 0;
      for(unsigned i = 0; i < 2u << p.masks.size(); ++i) {
        u64 s = v.slot(extreme(p.masks, i));
        lo = std::min(lo, s);
        hi = std::max(hi, s);
      }
      if(lo != 0 || hi != p.exact - 1)
        fail("bad-slot", "%s: slots go from %llu to %llu while there are %llu states", vk.name, (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)p.exact);
    }
    if(p.full && (vk.shape == COMP || vk.shape == NFS || vk.shape == NFMS)) {
      // positions follow the order of the traversal
      if(slots.size() && slots.back().first != slots.size() - 1) fail("bad-slot", "%s: slots are not contiguous", vk.name);
      p.model->keys.clear();
      for(auto const& s : slots) p.model->keys.push_back(s.second);
      if(vk.shape == COMP && !std::is_sorted(p.model->keys.begin(), p.model->keys.end())) fail("bad-slot", "%s: slots are not in increasing order", vk.name);
    }
  });
}

template struct VSpace<S_, SIM_IND>;

} // namespace sim
