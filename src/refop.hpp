// Reference action of operators on basis states: occupation vectors, textbook
// matrix elements, independent of the library's bit tricks.
#pragma once
#include "refhs.hpp"
#include <complex>

namespace refop {
using namespace refhs;
using cd = std::complex<double>;

// One generator. kind 0/1: par = 1 creation, 0 annihilation; kind 2: comp 0 '+', 1 '-', 2 'z', mult = 2S+1
struct Op {
  int kind;
  int comp;
  uint64_t mult;
  int idx;
};
inline std::string op_str(Op const& o) {
  if(o.kind == 2) return mc::str("S", o.comp == 0 ? "+" : o.comp == 1 ? "-" : "z", "{", o.mult, "}(", o.idx, ")");
  return mc::str(o.kind == 0 ? "C" : "A", o.comp ? "+" : "", "(", o.idx, ")");
}
using Word = std::vector<Op>;
inline std::string word_str(Word const& w) {
  std::string s;
  for(auto const& o : w)
    s += op_str(o) + " ";
  return s.empty() ? "1" : s;
}
using Sum = std::vector<std::pair<cd, Word>>;
inline std::string sum_str(Sum const& s) {
  std::ostringstream os;
  for(auto const& t : s)
    os << t.first << "*" << word_str(t.second) << "+ ";
  return os.str();
}

inline ES space_of(Op const& o, std::vector<ES> const& v, bool& found) {
  found = false;
  for(auto const& e : v)
    if(e.kind == o.kind && e.idx == o.idx && (o.kind != 2 || e.par == o.mult)) {
      found = true;
      return e;
    }
  return ES{0, 0, 0};
}

// Occupation numbers, one per sorted elementary space
using Occ = std::vector<uint64_t>;
inline uint64_t encode(Layout const& l, Occ const& n) {
  uint64_t s = 0;
  for(std::size_t i = 0; i < n.size(); ++i)
    if(n[i]) s |= n[i] << l.range[i].first;
  return s;
}
inline Occ decode(Layout const& l, uint64_t s) {
  Occ n;
  for(std::size_t i = 0; i < l.es.size(); ++i) {
    int b = es_bits(l.es[i]);
    n.push_back(b == 0 ? 0 : (s >> l.range[i].first) & (b == 64 ? ~uint64_t(0) : (uint64_t(1) << b) - 1));
  }
  return n;
}
inline int slot(Layout const& l, Op const& o) {
  for(std::size_t i = 0; i < l.es.size(); ++i)
    if(l.es[i].kind == o.kind && l.es[i].idx == o.idx && (o.kind != 2 || l.es[i].par == o.mult)) return int(i);
  return -1;
}
// Matrix element; returns 0 when the state is annihilated
inline double apply(Layout const& l, Op const& o, Occ& n) {
  int i = slot(l, o);
  if(i < 0) mc::fail("reference: no elementary space for " + op_str(o));
  switch(o.kind) {
  case 0: {
    double sign = 1;
    for(int j = 0; j < i; ++j)
      if(l.es[j].kind == 0 && n[j]) sign = -sign;
    if((o.comp == 1) == (n[i] == 1)) return 0;
    n[i] = o.comp;
    return sign;
  }
  case 1:
    if(o.comp) {
      if(n[i] + 1 >= l.es[i].par) return 0;
      ++n[i];
      return std::sqrt(double(n[i]));
    }
    if(n[i] == 0) return 0;
    --n[i];
    return std::sqrt(double(n[i] + 1));
  default: {
    // S(S+1) - m(m+-1) = (S -+ m)(S +- m + 1), without the cancellation for huge spins
    double S = (double(o.mult) - 1) / 2, m = double(n[i]) - S;
    if(o.comp == 2) return m;
    if(o.comp == 0) {
      if(n[i] + 1 >= o.mult) return 0;
      ++n[i];
      return std::sqrt((S - m) * (S + m + 1));
    }
    if(n[i] == 0) return 0;
    --n[i];
    return std::sqrt((S + m) * (S - m + 1));
  }
  }
}
using Col = std::map<uint64_t, cd>;
inline void add_word(Layout const& l, Word const& w, cd c, uint64_t in, Col& col) {
  Occ n = decode(l, in);
  cd a = c;
  for(std::size_t k = w.size(); k-- > 0;) {
    a *= apply(l, w[k], n);
    if(a == cd(0)) return;
  }
  col[encode(l, n)] += a;
}
inline Col column(Layout const& l, Sum const& s, uint64_t in) {
  Col col;
  for(auto const& t : s)
    add_word(l, t.second, t.first, in, col);
  return col;
}

// The stored polynomial of an expression as a Sum
inline Op to_op(generator<int> const& g) {
  int idx = std::get<0>(g.indices());
  if(is_fermion(g)) return {0, dynamic_cast<generator_fermion<int> const&>(g).dagger(), 2, idx};
  if(is_boson(g)) return {1, dynamic_cast<generator_boson<int> const&>(g).dagger(), 0, idx};
  auto const& s = dynamic_cast<generator_spin<int> const&>(g);
  return {2, s.component() == plus ? 0 : s.component() == minus ? 1 : 2, uint64_t(s.multiplicity()), idx};
}
template <typename S> inline Sum to_sum(expression<S, int> const& e) {
  Sum r;
  for(auto const& m : e) {
    Word w;
    for(auto const& g : m.monomial)
      w.push_back(to_op(g));
    r.emplace_back(cd(m.coeff), w);
  }
  return r;
}
// Library expression of one generator
template <typename S> inline expression<S, int> to_expr(Op const& o) {
  std::shared_ptr<const generator<int>> g;
  using namespace static_indices;
  if(o.kind == 0) g = make_fermion(bool(o.comp), o.idx);
  else if(o.kind == 1)
    g = make_boson(bool(o.comp), o.idx);
  else
    g = make_spin((double(o.mult) - 1) / 2, o.comp == 0 ? plus : o.comp == 1 ? minus : z, o.idx);
  return expression<S, int>(scalar_traits<S>::make_const(1), monomial<int>(std::vector<std::shared_ptr<const generator<int>>>{g}));
}
template <typename S> inline expression<S, int> to_expr(Word const& w) {
  expression<S, int> r(scalar_traits<S>::make_const(1));
  for(auto const& o : w)
    r = r * to_expr<S>(o);
  return r;
}
template <typename SV> inline void check_col(Layout const& l, SV const& dst, Col const& col, uint64_t in, std::string const& what) {
  for(auto const& p : col)
    MC_CHECK(mc::close(cd(get_element(dst, p.first)), p.second), what, " on |", in, ">: <", p.first, "| = ", cd(get_element(dst, p.first)), " expected ", p.second);
  foreach(dst, [&](sv_index_type n, element_type_t<SV> const& a) {
    auto it = col.find(n);
    cd ex = it == col.end() ? cd(0) : it->second;
    MC_CHECK(mc::close(cd(a), ex), what, " on |", in, ">: <", n, "| = ", cd(a), " expected ", ex);
  });
}
// Coefficients of very different magnitudes. The library takes numbers below
// 2.2e-14 for zeros.
static double const tiny = 4e-14;
inline std::vector<double> const& magnitudes() {
  static std::vector<double> m{4.3e-13, 1.7e-11, 2.9e-9, 2.3e-6, 3.1e6, 4.7e11};
  return m;
}
// Sum of the absolute values of everything that adds up to an element
inline std::map<uint64_t, double> weights(Layout const& l, Sum const& s, uint64_t in) {
  std::map<uint64_t, double> r;
  for(auto const& t : s) {
    Col c;
    add_word(l, t.second, t.first, in, c);
    for(auto const& p : c)
      r[p.first] += std::abs(p.second);
  }
  return r;
}
// dst == amp * column, up to rounding errors; only what is below 'tiny' may be dropped
// ('stored': the polynomial as the library keeps it)
template <typename SV> inline void check_scaled_col(Layout const& l, SV const& dst, Sum const& s, Sum const& stored, cd amp, uint64_t in, std::string const& what) {
  Col col = column(l, s, in);
  auto w = weights(l, s, in);
  for(auto const& p : weights(l, stored, in))
    w[p.first] += p.second;
  auto cmp = [&](uint64_t n, cd got) {
    auto it = col.find(n);
    cd ex = it == col.end() ? cd(0) : amp * it->second;
    double tol = tiny + 1e-11 * std::abs(ex);
    auto iw = w.find(n);
    if(iw != w.end()) tol += 1e-14 * std::abs(amp) * iw->second;
    MC_CHECK(std::abs(got - ex) <= tol, what, " on ", amp, "*|", in, ">: <", n, "| = ", got, " expected ", ex);
  };
  for(auto const& p : col)
    cmp(p.first, cd(get_element(dst, p.first)));
  foreach(dst, [&](sv_index_type n, element_type_t<SV> const& a) { cmp(n, cd(a)); });
}
inline uint64_t hash(Col const& c) {
  uint64_t h = 17;
  for(auto const& p : c) {
    cd v(std::round(p.second.real() * 1e6), std::round(p.second.imag() * 1e6));
    h = mc::hcomb(h, mc::hcomb(p.first, mc::hcomb(mc::hdbl(v.real()), mc::hdbl(v.imag()))));
  }
  return h;
}
} // namespace refop
