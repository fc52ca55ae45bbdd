// Reference model of Hilbert spaces: a sorted list of elementary spaces.
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <libcommute/libcommute.hpp>
#include <map>
#include <memory>

namespace refhs {
using namespace libcommute;
using HS = hilbert_space<int>;
using ESp = std::unique_ptr<elementary_space<int>>;

// kind: 0 fermion, 1 boson (par = dimension), 2 spin (par = multiplicity),
// >= 10: user-defined algebra with ID kind-10 (par = dimension)
struct ES {
  int kind;
  uint64_t par;
  int idx;
};
inline int alg_id(ES const& e) { return e.kind >= 10 ? e.kind - 10 : (e.kind == 0 ? fermion : e.kind == 1 ? boson : spin); }
inline uint64_t es_dim(ES const& e) { return e.kind == 0 ? 2 : e.par; }
inline int es_bits(ES const& e) {
  int b = 0;
  for(uint64_t d = es_dim(e) - 1; d; d >>= 1)
    ++b;
  return b;
}
// documented order: algebra, then spin by multiplicity, then index
inline std::tuple<int, uint64_t, int> key(ES const& e) { return std::make_tuple(alg_id(e), e.kind == 2 ? e.par : 0, e.idx); }
inline bool operator<(ES const& a, ES const& b) { return key(a) < key(b); }
inline bool same(ES const& a, ES const& b) { return key(a) == key(b); }
inline std::string es_str(ES const& e) {
  if(e.kind == 0) return mc::str("f", e.idx);
  return mc::str(e.kind == 1 ? "b" : e.kind == 2 ? "s" : "u", e.kind >= 10 ? mc::str(e.kind - 10, ":") : "", e.par, "@", e.idx);
}
inline std::string set_str(std::vector<ES> const& v) {
  std::string s = "{";
  for(auto const& e : v)
    s += es_str(e) + " ";
  return s + "}";
}

// user-defined elementary space
class UserSpace : public elementary_space<int> {
  uint64_t dim_;
  int id_;

public:
  UserSpace(int id, uint64_t dim, int idx) : elementary_space<int>(idx), dim_(dim), id_(id) {}
  ESp clone() const override { return ESp(new UserSpace(*this)); }
  int algebra_id() const override { return id_; }
  sv_index_type dim() const override { return dim_; }
  int n_bits() const override {
    int b = 0;
    for(uint64_t d = dim_ - 1; d; d >>= 1)
      ++b;
    return b;
  }
};
inline ESp make(ES const& e) {
  using namespace static_indices;
  switch(e.kind) {
  case 0: return ESp(new elementary_space_fermion<int>(e.idx));
  case 1: return ESp(new elementary_space_boson<int>(e.par, e.idx));
  case 2: return ESp(new elementary_space_spin<int>((int(e.par) - 1) / 2.0, e.idx));
  default: return ESp(new UserSpace(e.kind - 10, e.par, e.idx));
  }
}

struct Layout {
  std::vector<ES> es; // sorted
  std::vector<std::pair<int, int>> range;
  std::map<int, std::pair<int, int>> alg;
  int bits = 0;
  uint64_t dim = 1;
};
inline Layout layout(std::vector<ES> v) {
  Layout l;
  std::sort(v.begin(), v.end());
  l.es = v;
  for(auto const& e : v) {
    int b = es_bits(e);
    std::pair<int, int> r(l.bits, l.bits + b - 1);
    l.range.push_back(r);
    auto it = l.alg.find(alg_id(e));
    if(it == l.alg.end()) l.alg[alg_id(e)] = r;
    else
      it->second.second = r.second;
    l.bits += b;
    l.dim *= es_dim(e);
  }
  return l;
}

// Every query of 'hs' against the reference
inline void check(HS const& hs, std::vector<ES> const& v, std::vector<ES> const& pool, std::string const& what) {
  Layout l = layout(v);
  std::string w = what + " on " + set_str(l.es);
  MC_CHECK(hs.size() == l.es.size(), w, ": size() = ", hs.size());
  MC_CHECK(hs.total_n_bits() == l.bits, w, ": total_n_bits() = ", hs.total_n_bits(), " expected ", l.bits);
  MC_CHECK(hs.dim() == l.dim && get_dim(hs) == l.dim, w, ": dim() = ", hs.dim(), " expected ", l.dim);
  uint64_t vs = uint64_t(1) << l.bits;
  MC_CHECK(hs.vec_size() == vs && get_vec_size(hs) == vs, w, ": vec_size() = ", hs.vec_size());
  MC_CHECK(hs.is_sparse() == (l.dim != vs), w, ": is_sparse()");
  for(std::size_t i = 0; i < l.es.size(); ++i) {
    auto p = make(l.es[i]);
    std::string n = w + " for " + es_str(l.es[i]);
    MC_CHECK(hs.has(*p), n, ": has()");
    MC_CHECK(hs.index(*p) == int(i), n, ": index() = ", hs.index(*p), " expected ", i);
    MC_CHECK(hs.dim(*p) == es_dim(l.es[i]), n, ": dim(es) = ", hs.dim(*p));
    MC_CHECK(hs.bit_range(*p) == l.range[i], n, ": bit_range() = ", hs.bit_range(*p).first, "..", hs.bit_range(*p).second, " expected ", l.range[i].first, "..", l.range[i].second);
    HS& m = const_cast<HS&>(hs);
    uint64_t d = es_dim(l.es[i]);
    for(uint64_t k : {uint64_t(0), uint64_t(1), d / 2, d - 1})
      if(k < d && es_bits(l.es[i]) > 0) MC_CHECK(m.basis_state_index(*p, k) == k << l.range[i].first, n, ": basis_state_index(", k, ")");
  }
  std::size_t i = 0;
  hs.foreach_elementary_space([&](elementary_space<int> const& e) {
    MC_CHECK(i < l.es.size() && e == *make(l.es[i]) && e.dim() == es_dim(l.es[i]), w, ": foreach_elementary_space() position ", i);
    ++i;
  });
  MC_CHECK(i == l.es.size(), w, ": foreach_elementary_space() visited ", i);
  for(int a = fermion - 1; a < 6; ++a) {
    auto it = l.alg.find(a);
    MC_CHECK(hs.has_algebra(a) == (it != l.alg.end()), w, ": has_algebra(", a, ")");
    if(it != l.alg.end())
      MC_CHECK(hs.algebra_bit_range(a) == it->second, w, ": algebra_bit_range(", a, ") = ", hs.algebra_bit_range(a).first, "..", hs.algebra_bit_range(a).second, " expected ", it->second.first, "..", it->second.second);
    else
      mc::expect_throw<std::runtime_error>([&] { (void)hs.algebra_bit_range(a); }, w + ": algebra_bit_range of an absent algebra");
  }
  for(auto const& e : pool) {
    bool present = false;
    for(auto const& x : l.es)
      present = present || same(e, x);
    if(present) continue;
    auto p = make(e);
    std::string n = w + " for absent " + es_str(e);
    MC_CHECK(!hs.has(*p), n, ": has()");
    auto check_exc = [&](auto&& f, char const* q) {
      try {
        f();
      } catch(HS::elementary_space_not_found const& x) {
        MC_CHECK(x.elementary_space_ptr && *x.elementary_space_ptr == *p, n, ": exception reports another space, ", q);
        return;
      } catch(std::exception const& x) {
        mc::fail(n + ": wrong exception from " + q + ": " + x.what());
      }
      mc::fail(n + ": no exception from " + q);
    };
    check_exc([&] { (void)hs.index(*p); }, "index()");
    check_exc([&] { (void)hs.dim(*p); }, "dim(es)");
    check_exc([&] { (void)hs.bit_range(*p); }, "bit_range()");
    HS& m = const_cast<HS&>(hs);
    check_exc([&] { (void)m.basis_state_index(*p, 0); }, "basis_state_index()");
  }
}
inline uint64_t hash(Layout const& l) {
  uint64_t h = 5;
  for(auto const& e : l.es)
    h = mc::hcomb(h, mc::hcomb(e.kind * 64 + e.idx, e.par));
  return h;
}
// valid basis states in increasing order, by brute force over the mixed radix
inline std::vector<uint64_t> states(Layout const& l) {
  std::vector<uint64_t> r{0};
  for(std::size_t i = l.es.size(); i-- > 0;) {
    // most significant space first
    std::vector<uint64_t> n;
    for(auto s : r)
      for(uint64_t k = 0; k < es_dim(l.es[i]); ++k)
        n.push_back(s | k << l.range[i].first);
    r = n;
  }
  std::sort(r.begin(), r.end());
  return r;
}
inline HS build(std::vector<ES> const& v) {
  HS hs;
  for(auto const& e : v)
    hs.add(*make(e));
  return hs;
}
// all subsets of 'pool' without equivalent members, up to a size
template <typename F> void subsets(std::vector<ES> const& pool, int maxsize, F&& f) {
  std::vector<ES> cur;
  std::function<void(std::size_t)> rec = [&](std::size_t i) {
    f(cur);
    if(int(cur.size()) == maxsize) return;
    for(std::size_t k = i; k < pool.size(); ++k) {
      bool dup = false;
      for(auto const& e : cur)
        dup = dup || same(e, pool[k]);
      if(dup) continue;
      cur.push_back(pool[k]);
      rec(k + 1);
      cur.pop_back();
    }
  };
  rec(0);
}
} // namespace refhs
