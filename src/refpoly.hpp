// Reference polynomial arithmetic: a plain map from canonical words to
// coefficients, with multiplication by naive one-step-at-a-time rewriting.
// Written from the documented relations, independent of the library.
#pragma once
#include "ref.hpp"

namespace ref {

using C = std::complex<double>;

// Documented canonical order, as a sort key
inline std::tuple<int, int, int, int> okey(G const& g) {
  if(g.alg == SPIN) return std::make_tuple(2, g.mult, g.site, g.comp);
  // creation operators ascending, then annihilation operators descending
  return std::make_tuple(g.alg == FERMION ? 0 : 1, g.comp ? 0 : 1, g.comp ? g.site : -g.site, 0);
}
inline bool oless(G const& a, G const& b) { return okey(a) < okey(b); }

struct WordLess {
  bool operator()(std::vector<G> const& a, std::vector<G> const& b) const {
    if(a.size() != b.size()) return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), oless);
  }
};
using RPoly = std::map<std::vector<G>, C, WordLess>;

inline void radd(RPoly& p, std::vector<G> const& w, C c) {
  if(c == C(0)) return;
  auto it = p.find(w);
  if(it == p.end())
    p.emplace(w, c);
  else {
    it->second += c;
    if(it->second == C(0)) p.erase(it);
  }
}

// One rewriting step at position i of w, if applicable: appends the resulting
// (coefficient, word) terms to 'out' and returns true.
inline bool rewrite_at(std::vector<G> const& w, std::size_t i, std::vector<std::pair<double, std::vector<G>>>& out) {
  G const &a = w[i], &b = w[i + 1];
  auto splice = [&](double c, std::vector<G> mid) {
    std::vector<G> r(w.begin(), w.begin() + i);
    r.insert(r.end(), mid.begin(), mid.end());
    r.insert(r.end(), w.begin() + i + 2, w.end());
    out.emplace_back(c, r);
  };
  bool same = a.alg == b.alg && a.site == b.site && a.mult == b.mult;
  if(same && a.alg == SPIN && a.mult == 2) {
    // Pauli algebra: every product of two generators reduces
    G p{SPIN, 0, a.site, 2}, m{SPIN, 1, a.site, 2}, z{SPIN, 2, a.site, 2};
    if(a.comp == b.comp) {
      if(a.comp == 2) splice(0.25, {});
    } else if(a.comp == 0 && b.comp == 1) { // S+S- = 1/2 + Sz
      splice(0.5, {});
      splice(1, {z});
    } else if(a.comp == 1 && b.comp == 0) { // S-S+ = 1/2 - Sz
      splice(0.5, {});
      splice(-1, {z});
    } else if(a.comp == 0 && b.comp == 2)
      splice(-0.5, {p});
    else if(a.comp == 2 && b.comp == 0)
      splice(0.5, {p});
    else if(a.comp == 1 && b.comp == 2)
      splice(0.5, {m});
    else
      splice(-0.5, {m});
    return true;
  }
  if(a.alg == FERMION && a == b) return true; // square vanishes
  if(!oless(b, a)) return false;
  // out of order
  if(a.alg == FERMION && b.alg == FERMION) {
    splice(-1, {b, a});
    if(same && a.comp != b.comp) splice(1, {});
  } else if(a.alg == BOSON && b.alg == BOSON) {
    splice(1, {b, a});
    if(same && a.comp == 0 && b.comp == 1) splice(1, {});
  } else if(a.alg == SPIN && same) {
    splice(1, {b, a});
    if(a.comp == 1) splice(-2, {G{SPIN, 2, a.site, a.mult}});     // S-S+ = S+S- - 2Sz
    else if(b.comp == 0) splice(1, {b});                          // SzS+ = S+Sz + S+
    else
      splice(-1, {b});                                            // SzS- = S-Sz - S-
  } else
    splice(1, {b, a});
  return true;
}

// S_+^{2S+1} = S_-^{2S+1} = 0
inline bool nilpotent_run(std::vector<G> const& w) {
  int run = 0;
  for(std::size_t i = 0; i < w.size(); ++i) {
    run = (i > 0 && w[i] == w[i - 1]) ? run + 1 : 1;
    if(w[i].alg == SPIN && w[i].comp != 2 && run >= w[i].mult) return true;
  }
  return false;
}

inline void rnormal(std::vector<G> const& w, C c, RPoly& out) {
  std::vector<std::pair<C, std::vector<G>>> todo{{c, w}};
  std::vector<std::pair<double, std::vector<G>>> terms;
  while(!todo.empty()) {
    auto t = todo.back();
    todo.pop_back();
    bool changed = false;
    for(std::size_t i = 0; i + 1 < t.second.size(); ++i) {
      terms.clear();
      if(rewrite_at(t.second, i, terms)) {
        for(auto& x : terms)
          todo.emplace_back(t.first * x.first, x.second);
        changed = true;
        break;
      }
    }
    if(!changed && !nilpotent_run(t.second)) radd(out, t.second, t.first);
  }
}
inline RPoly rsum(RPoly a, RPoly const& b, C s = 1) {
  for(auto const& t : b)
    radd(a, t.first, s * t.second);
  return a;
}
inline RPoly rmul(RPoly const& a, RPoly const& b) {
  RPoly r;
  for(auto const& x : a)
    for(auto const& y : b) {
      std::vector<G> w = x.first;
      w.insert(w.end(), y.first.begin(), y.first.end());
      rnormal(w, x.second * y.second, r);
    }
  return r;
}
inline RPoly rscale(RPoly const& a, C s) {
  RPoly r;
  for(auto const& x : a)
    radd(r, x.first, x.second * s);
  return r;
}
inline RPoly rconst(C s) {
  RPoly r;
  radd(r, {}, s);
  return r;
}
inline RPoly rword(std::vector<G> const& w, C c = 1) {
  RPoly r;
  rnormal(w, c, r);
  return r;
}
inline RPoly rconj(RPoly const& a) {
  RPoly r;
  for(auto const& x : a) {
    std::vector<G> w(x.first.rbegin(), x.first.rend());
    for(auto& g : w) {
      if(g.alg == SPIN) {
        if(g.comp != 2) g.comp = 1 - g.comp;
      } else
        g.comp = 1 - g.comp;
    }
    rnormal(w, std::conj(x.second), r);
  }
  return r;
}
inline std::string rstr(RPoly const& p) {
  std::ostringstream os;
  for(auto const& t : p)
    os << t.second << "*" << word_str(t.first) << "; ";
  return p.empty() ? "0" : os.str();
}
inline uint64_t hash_r(RPoly const& p) {
  uint64_t h = 3;
  for(auto const& t : p) {
    h = mc::hcomb(h, hash_c(t.second));
    for(auto const& g : t.first)
      h = mc::hcomb(h, hash_g(g));
    h = mc::hcomb(h, 0x55);
  }
  return h;
}

template <typename S> C to_c(S const& s) { return C(double(s)); }
inline C to_c(C const& s) { return s; }
inline C to_c(std::complex<float> const& s) { return C(s.real(), s.imag()); }

// Exact comparison of an expression with the reference: same words, in the
// same (canonical) order, same coefficients, no zeros, no duplicates.
template <typename S, typename... I, typename SiteF>
void check_equal(expression<S, I...> const& e, RPoly const& r, std::string const& what, SiteF&& site) {
  auto it = r.begin();
  auto dump = [&] {
    std::ostringstream os;
    for(auto const& m : e.get_monomials())
      os << to_c(m.second) << "*" << word_str(decode(m.first, site)) << "; ";
    return what + ": got " + os.str() + " expected " + rstr(r);
  };
  if(e.size() != e.get_monomials().size()) mc::fail("size() inconsistent, " + what);
  std::vector<G> prev;
  bool first = true;
  for(auto const& m : e.get_monomials()) {
    if(libcommute::scalar_traits<S>::is_zero(m.second)) mc::fail("zero coefficient stored, " + dump());
    auto w = decode(m.first, site);
    if(it == r.end() || !(it->first == w) || it->second != to_c(m.second)) mc::fail(dump());
    ++it;
  }
  if(it != r.end()) mc::fail(dump());
}
template <typename S> void check_equal(expression<S, int> const& e, RPoly const& r, std::string const& what) { check_equal(e, r, what, int_site()); }

// Build a library expression from a reference polynomial (sum of monomials)
template <typename S> S from_c(C c) { return S(c.real()); }
template <> inline C from_c<C>(C c) { return c; }
template <typename S> expression<S, int> build(RPoly const& p) {
  expression<S, int> e;
  for(auto const& t : p) {
    std::vector<std::shared_ptr<const generator<int>>> gens;
    for(auto const& g : t.first)
      gens.push_back(make_gen(g));
    e += expression<S, int>(from_c<S>(t.second), monomial<int>(gens));
  }
  return e;
}

inline G F(int d, int i) { return {FERMION, d, i, 0}; }
inline G B(int d, int i) { return {BOSON, d, i, 0}; }
inline G Sg(int c, int m, int i) { return {SPIN, c, i, m}; } // c: 0 '+', 1 '-', 2 'z'

} // namespace ref
