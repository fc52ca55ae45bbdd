// Reference semantics of generators: independent, deliberately naive.
//
// A generator is decoded, through the public accessors only, into G; G acts on
// occupation-number configurations. Two representations are provided:
//  * the scaled one (no square roots: a|n> = n|n-1>, a+|n> = |n+1>, bosons
//    untruncated; S-|k> = |k+1>, S+|k> = k(2S+1-k)|k-1>, Sz|k> = (S-k)|k>),
//    which is faithful and exact in doubles, and
//  * the physical one with truncated bosons and standard spin matrices.
#pragma once
#include "mc.hpp"
#include <libcommute/libcommute.hpp>
#include <map>
#include <type_traits>

namespace ref {

using libcommute::expression;
using libcommute::generator;
using libcommute::monomial;

enum Alg { FERMION, BOSON, SPIN };

struct G {
  int alg;  // Alg
  int comp; // fermion/boson: 1 = creation, 0 = annihilation; spin: 0 '+', 1 '-', 2 'z'
  int site; // site number within (alg, mult)
  int mult; // 2S+1, for spins
};
inline bool operator==(G const& a, G const& b) {
  return a.alg == b.alg && a.comp == b.comp && a.site == b.site && a.mult == b.mult;
}
inline std::string g_str(G const& g) {
  if(g.alg == FERMION) return mc::str("C", g.comp ? "+" : "", "(", g.site, ")");
  if(g.alg == BOSON) return mc::str("A", g.comp ? "+" : "", "(", g.site, ")");
  return mc::str("S[", g.mult, "]", "+-z"[g.comp], "(", g.site, ")");
}
inline std::string word_str(std::vector<G> const& w) {
  std::string s;
  for(auto const& g : w)
    s += g_str(g) + " ";
  return s.empty() ? "1" : s;
}

// --- decoding library objects through their public interface ------------------
template <typename... I, typename SiteF> G decode(generator<I...> const& g, SiteF&& site) {
  G r{};
  r.site = site(g.indices());
  if(g.algebra_id() == libcommute::fermion) {
    auto const& f = dynamic_cast<libcommute::generator_fermion<I...> const&>(g);
    r.alg = FERMION;
    r.comp = f.dagger();
  } else if(g.algebra_id() == libcommute::boson) {
    auto const& f = dynamic_cast<libcommute::generator_boson<I...> const&>(g);
    r.alg = BOSON;
    r.comp = f.dagger();
  } else if(g.algebra_id() == libcommute::spin) {
    auto const& f = dynamic_cast<libcommute::generator_spin<I...> const&>(g);
    r.alg = SPIN;
    r.comp = f.component() == libcommute::plus ? 0 : (f.component() == libcommute::minus ? 1 : 2);
    r.mult = f.multiplicity();
  } else
    mc::fail("unexpected algebra id");
  return r;
}
struct int_site {
  int operator()(std::tuple<int> const& t) const { return std::get<0>(t); }
};
template <typename... I, typename SiteF> std::vector<G> decode(monomial<I...> const& m, SiteF&& site) {
  std::vector<G> w;
  for(auto const& g : m)
    w.push_back(decode(g, site));
  return w;
}

// --- building library generators from G ----------------------------------------
inline std::shared_ptr<const generator<int>> make_gen(G const& g) {
  using namespace libcommute::static_indices;
  switch(g.alg) {
  case FERMION: return make_fermion(g.comp == 1, int(g.site));
  case BOSON: return make_boson(g.comp == 1, int(g.site));
  default: {
    auto c = g.comp == 0 ? libcommute::plus : (g.comp == 1 ? libcommute::minus : libcommute::z);
    return make_spin((g.mult - 1) / 2.0, c, int(g.site));
  }
  }
}
template <typename S = double> expression<S, int> make_expr(G const& g) {
  return expression<S, int>(libcommute::scalar_traits<S>::make_const(1), monomial<int>{make_gen(g)});
}

// --- configurations --------------------------------------------------------------
// fermion site i: bit i (i < 16); boson site i: bits 16+8i.. (i < 3);
// spin (mult m, site i): nibble; slot given by an explicit table.
struct Sites {
  int nf = 0;                             // fermionic sites 0..nf-1
  int nb = 0;                             // bosonic sites 0..nb-1
  std::vector<std::pair<int, int>> spins; // (mult, site), in order
  int spin_slot(int mult, int site) const {
    for(std::size_t i = 0; i < spins.size(); ++i)
      if(spins[i].first == mult && spins[i].second == site) return int(i);
    return -1;
  }
  void add(G const& g) {
    if(g.alg == FERMION) nf = std::max(nf, g.site + 1);
    else if(g.alg == BOSON)
      nb = std::max(nb, g.site + 1);
    else if(spin_slot(g.mult, g.site) < 0) {
      spins.push_back({g.mult, g.site});
      std::sort(spins.begin(), spins.end());
    }
  }
};

inline int get_b(uint64_t s, int i) { return int((s >> (16 + 8 * i)) & 0xff); }
inline int get_s(uint64_t s, int i) { return int((s >> (40 + 4 * i)) & 0xf); }

// Scaled, exact representation. Returns false if the result vanishes.
inline bool act_scaled(Sites const& L, G const& g, uint64_t& s, double& c) {
  switch(g.alg) {
  case FERMION: {
    uint64_t bit = uint64_t(1) << g.site;
    bool occ = s & bit;
    if(occ == (g.comp == 1)) return false;
    if(__builtin_popcountll(s & 0xffff & (bit - 1)) & 1) c = -c;
    s ^= bit;
    return true;
  }
  case BOSON: {
    int n = get_b(s, g.site);
    if(g.comp == 1) {
      s += uint64_t(1) << (16 + 8 * g.site);
      return true;
    }
    if(n == 0) return false;
    c *= n;
    s -= uint64_t(1) << (16 + 8 * g.site);
    return true;
  }
  default: {
    int slot = L.spin_slot(g.mult, g.site);
    int k = get_s(s, slot);
    if(g.comp == 2) {
      double m = (g.mult - 1) / 2.0 - k;
      c *= m;
      return m != 0;
    }
    if(g.comp == 1) {
      if(k == g.mult - 1) return false;
      s += uint64_t(1) << (40 + 4 * slot);
      return true;
    }
    if(k == 0) return false;
    c *= double(k) * (g.mult - k);
    s -= uint64_t(1) << (40 + 4 * slot);
    return true;
  }
  }
}

// All configurations with bosons up to nmax
inline std::vector<uint64_t> configs(Sites const& L, int nmax) {
  std::vector<uint64_t> r;
  std::vector<int> radix;
  radix.push_back(1 << L.nf);
  for(int i = 0; i < L.nb; ++i)
    radix.push_back(nmax + 1);
  for(auto const& p : L.spins)
    radix.push_back(p.first);
  mc::tuples(radix, [&](std::vector<int> const& w) {
    uint64_t s = uint64_t(w[0]);
    for(int i = 0; i < L.nb; ++i)
      s |= uint64_t(w[1 + i]) << (16 + 8 * i);
    for(std::size_t i = 0; i < L.spins.size(); ++i)
      s |= uint64_t(w[1 + L.nb + i]) << (40 + 4 * i);
    r.push_back(s);
  });
  return r;
}

// A polynomial decoded from the library: list of (coefficient, word)
template <typename S> using Poly = std::vector<std::pair<S, std::vector<G>>>;

template <typename S, typename... I, typename SiteF> Poly<S> decode(expression<S, I...> const& e, SiteF&& site) {
  Poly<S> p;
  for(auto const& m : e.get_monomials())
    p.emplace_back(m.second, decode(m.first, site));
  return p;
}

template <typename S> using Column = std::map<uint64_t, S>;

template <typename S> void act_add(Sites const& L, S const& coeff, std::vector<G> const& w, uint64_t s, Column<S>& out) {
  double c = 1;
  for(auto it = w.rbegin(); it != w.rend(); ++it)
    if(!act_scaled(L, *it, s, c)) return;
  out[s] += coeff * S(c);
}
template <typename S> Column<S> column(Sites const& L, Poly<S> const& p, uint64_t s) {
  Column<S> r;
  for(auto const& t : p)
    act_add(L, t.first, t.second, s, r);
  for(auto it = r.begin(); it != r.end();)
    if(it->second == S(0)) it = r.erase(it);
    else
      ++it;
  return r;
}
template <typename S> std::string col_str(Column<S> const& c) {
  std::ostringstream os;
  for(auto const& x : c)
    os << std::hex << x.first << std::dec << ":" << x.second << " ";
  return os.str();
}

template <typename S> std::string poly_str(Poly<S> const& p) {
  std::ostringstream os;
  for(auto const& t : p)
    os << "(" << t.first << ")*" << word_str(t.second) << " + ";
  return os.str();
}

inline uint64_t hash_g(G const& g) { return mc::mix(uint64_t(g.alg) | uint64_t(g.comp) << 4 | uint64_t(g.site & 0xffff) << 8 | uint64_t(g.mult) << 32); }
inline uint64_t hash_c(double c) { return mc::hdbl(c); }
inline uint64_t hash_c(int c) { return uint64_t(c); }
inline uint64_t hash_c(std::complex<double> c) { return mc::hcomb(mc::hdbl(c.real()), mc::hdbl(c.imag())); }
template <typename S> uint64_t hash_poly(Poly<S> const& p) {
  uint64_t h = 7;
  for(auto const& t : p) {
    h = mc::hcomb(h, hash_c(t.first));
    for(auto const& g : t.second)
      h = mc::hcomb(h, hash_g(g));
    h = mc::hcomb(h, 0x77);
  }
  return h;
}

// Number of boson generators per site bounds the degree: equality of two
// normal-ordered polynomials of degree <= d is decided by their action on
// |n>, n = 0..d (untruncated bosons).
inline int boson_degree(std::vector<G> const& w) {
  int d[8] = {0}, m = 0;
  for(auto const& g : w)
    if(g.alg == BOSON) m = std::max(m, ++d[g.site]);
  return m;
}

} // namespace ref
