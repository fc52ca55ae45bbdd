// C04: Hermitian conjugation
#include "gauss.hpp"
#include "refpoly.hpp"
using namespace libcommute;
using namespace ref;
using CD = std::complex<double>;
namespace ref {
template <> inline Zi from_c<Zi>(C c) { return Zi(long(c.real()), long(c.imag())); }
} // namespace ref

static std::vector<G> rev(std::vector<G> const& w0) {
  std::vector<G> w(w0.rbegin(), w0.rend());
  for(auto& g : w) {
    if(g.alg == SPIN) {
      if(g.comp != 2) g.comp = 1 - g.comp;
    } else
      g.comp = 1 - g.comp;
  }
  return w;
}
static bool spin_ok(std::vector<G> const& w) {
  std::map<std::tuple<int, int, int>, int> cnt;
  for(auto const& g : w)
    if(g.alg == SPIN && g.mult > 2 && g.comp != 2 && ++cnt[std::make_tuple(g.mult, g.site, g.comp)] > g.mult - 1) return false;
  return true;
}
template <typename S> static Poly<CD> pc(expression<S, int> const& e) {
  Poly<CD> p;
  for(auto const& m : e.get_monomials())
    p.emplace_back(to_c(m.second), decode(m.first, int_site()));
  return p;
}
// operator equality in the faithful scaled representation
template <typename S> static void same_operator(Sites const& L, int nmax, expression<S, int> const& e, Poly<CD> const& p, std::string const& what) {
  auto d = pc(e);
  for(uint64_t s : configs(L, nmax)) {
    auto a = column(L, d, s), b = column(L, p, s);
    MC_CHECK(a == b, what, ": on state ", s, " got ", col_str(a), " expected ", col_str(b));
  }
}

template <typename S> static void check_word(mc::Ctx& cx, std::vector<G> const& w, C coef) {
  using E = expression<S, int>;
  std::vector<E> f;
  for(auto const& g : w)
    f.push_back(make_expr<S>(g));
  auto prod = [&](std::size_t b, std::size_t e) {
    E r(from_c<S>(1));
    for(std::size_t i = b; i < e; ++i)
      r = r * f[i];
    return r;
  };
  E full = from_c<S>(coef) * prod(0, w.size());
  E full0 = full;
  E c = conj(full);
  MC_CHECK(full == full0, "conj() changed its argument");
  E cc = conj(c);
  Sites L;
  for(auto const& g : w)
    L.add(g);
  int deg = boson_degree(w);
  Poly<CD> rp{{std::conj(coef), rev(w)}};
  bool uniq = spin_ok(w);
  if(uniq) {
    check_equal(c, rconj(rword(w, coef)), "conj");
    MC_CHECK(cc == full, "conj(conj(x)) != x");
  } else
    same_operator(L, deg, cc, Poly<CD>{{coef, w}}, "conj(conj(x))");
  same_operator(L, deg, c, rp, "conj(x)");
  E plus = full + hc, minus = full - hc;
  MC_CHECK(plus == full + c && minus == full - c, "x +/- hc");
  for(std::size_t k = 0; k <= w.size(); ++k) {
    E A = prod(0, k), B = from_c<S>(coef) * prod(k, w.size());
    E lhs = conj(A * B), rhs = conj(B) * conj(A);
    if(uniq) MC_CHECK(lhs == rhs && lhs == c, "conj(A*B) != conj(B)*conj(A), split at ", k);
    else
      same_operator(L, deg, rhs, rp, "conj(B)*conj(A)");
  }
  cx.state(hash_poly(pc(c)));
  cx.trans(w.size() + 4);
  cx.validated(w.size() + 4);
}
template <typename S> static void all_words(mc::Ctx& cx, std::vector<G> const& alpha, int lo, int hi, std::vector<C> const& coefs) {
  cx.bound(mc::str("all words of length ", lo, "..", hi, " over ", word_str(alpha), " and all their splits, ", coefs.size(), " coefficients"));
  mc::words(int(alpha.size()), lo, hi, [&](std::vector<int> const& w) {
    std::vector<G> g;
    for(int i : w)
      g.push_back(alpha[i]);
    for(C c : coefs)
      cx.test([&] { return mc::str(c, "*", word_str(g)); }, [&] { check_word<S>(cx, g, c); });
  });
}
FAMILY(words_fermion) {
  all_words<CD>(cx, {F(1, 0), F(0, 0), F(1, 1), F(0, 1)}, 0, cx.pick(5, 6), {C(1, 2)});
  all_words<double>(cx, {F(1, 0), F(0, 0), F(1, 1), F(0, 1)}, 0, cx.pick(5, 6), {-2});
}
FAMILY(words_boson) {
  all_words<CD>(cx, {B(1, 0), B(0, 0), B(1, 1), B(0, 1)}, 0, cx.pick(5, 6), {C(0.5, -1)});
  all_words<int>(cx, {B(1, 0), B(0, 0)}, 0, cx.pick(7, 8), {3});
}
FAMILY(words_spin) {
  all_words<CD>(cx, {Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), Sg(0, 2, 1), Sg(1, 2, 1)}, 0, cx.pick(4, 5), {C(1, 2)});
  for(int m = 3; m <= 5; ++m)
    all_words<CD>(cx, {Sg(0, m, 0), Sg(1, m, 0), Sg(2, m, 0)}, 0, cx.pick(5, 6), {C(0, 1)});
  all_words<double>(cx, {Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), Sg(0, 3, 0), Sg(1, 3, 0)}, 2, cx.pick(4, 5), {1});
}
FAMILY(words_mixed) {
  all_words<CD>(cx, {F(1, 0), F(0, 0), F(1, 1), B(1, 0), B(0, 0), Sg(0, 2, 0), Sg(2, 2, 0), Sg(1, 3, 0)}, 2, cx.pick(4, 5), {C(1, -1)});
  all_words<Zi>(cx, {F(1, 0), F(0, 0), F(1, 1), B(1, 0), B(0, 0), Sg(1, 3, 0)}, 1, cx.pick(4, 5), {C(0, 3)});
}

template <typename S> static void pairs(mc::Ctx& cx, std::vector<RPoly> const& P) {
  using E = expression<S, int>;
  cx.bound(mc::str("all ordered pairs of ", P.size(), " polynomials"));
  for(auto const& a : P)
    for(auto const& b : P)
      cx.test([&] { return "a = " + rstr(a) + ", b = " + rstr(b); },
              [&] {
                E A = build<S>(a), B = build<S>(b);
                E ca = conj(A), cb = conj(B);
                check_equal(ca, rconj(a), "conj(a)");
                MC_CHECK(conj(A + B) == ca + cb, "conj(a+b)");
                MC_CHECK(conj(A - B) == ca - cb, "conj(a-b)");
                MC_CHECK(conj(A * B) == cb * ca, "conj(a*b)");
                check_equal(conj(A * B), rconj(rmul(a, b)), "conj(a*b)");
                check_equal(A + hc, rsum(a, rconj(a)), "a + hc");
                check_equal(A - hc, rsum(a, rconj(a), -1), "a - hc");
                check_equal(A * B + hc, rsum(rmul(a, b), rconj(rmul(a, b))), "a*b + hc");
                MC_CHECK((A + hc) == conj(A + hc), "a + hc is not Hermitian");
                check_equal(A, a, "argument");
                cx.state(hash_r(rmul(a, b)));
                cx.trans(12);
                cx.validated(9);
              });
}
static std::vector<RPoly> pool(std::vector<std::vector<G>> const& mons, std::vector<C> const& coefs) {
  std::vector<RPoly> p{{}};
  for(std::size_t i = 0; i < mons.size(); ++i)
    for(C c : coefs)
      p.push_back(rword(mons[i], c));
  for(std::size_t i = 0; i < mons.size(); ++i)
    for(std::size_t j = i + 1; j < mons.size(); ++j)
      for(C c : coefs)
        for(C d : coefs)
          p.push_back(rsum(rword(mons[i], c), rword(mons[j], d)));
  return p;
}
FAMILY(pairs_complex) {
  std::vector<std::vector<G>> m = {{}, {F(1, 0)}, {F(1, 0), F(0, 1)}, {F(1, 1), F(0, 0)}, {B(1, 0)}, {B(1, 0), B(0, 0)}, {Sg(0, 2, 0)}, {Sg(2, 2, 0)}, {F(1, 0), B(0, 0)}, {Sg(0, 3, 0)}};
  m.resize(cx.pick(7, 10));
  pairs<CD>(cx, pool(m, {1, C(0, 1), C(-1, 2)}));
}
FAMILY(pairs_real) {
  std::vector<std::vector<G>> m = {{}, {F(1, 0)}, {F(1, 0), F(0, 1)}, {F(1, 1), F(0, 0)}, {B(1, 0)}, {B(1, 0), B(0, 0)}, {Sg(0, 2, 0)}, {Sg(2, 2, 0)}, {F(1, 0), B(0, 0)}, {Sg(0, 3, 0)}};
  pairs<double>(cx, pool(m, {1, -2}));
}
FAMILY(pairs_custom) {
  std::vector<std::vector<G>> m = {{}, {F(1, 0)}, {F(1, 0), F(0, 1)}, {F(1, 1), F(0, 0)}, {B(1, 0)}, {B(1, 0), B(0, 0)}};
  pairs<Zi>(cx, pool(m, {1, C(0, 1), C(-1, 2)}));
}
// Coefficients set through the mutable monomial container, including zeros
FAMILY(container_coefficients) {
  std::vector<std::vector<G>> mons = {{}, {F(1, 0)}, {B(1, 0), B(0, 0)}, {Sg(0, 2, 0)}, {F(1, 0), F(0, 1)}};
  std::vector<C> vals = {0, 1, C(0, 2)};
  cx.bound("all assignments of {absent, 0, 1, 2i} to 5 monomials through get_monomials()");
  mc::tuples({4, 4, 4, 4, 4}, [&](std::vector<int> const& q) {
    cx.test([&] { return mc::vec_str(q); },
            [&] {
              expression<CD, int> e;
              RPoly r;
              for(std::size_t i = 0; i < q.size(); ++i) {
                if(q[i] == 0) continue;
                std::vector<std::shared_ptr<const generator<int>>> gens;
                for(auto const& g : mons[i])
                  gens.push_back(make_gen(g));
                e.get_monomials().emplace(monomial<int>(gens), vals[q[i] - 1]);
                radd(r, mons[i], vals[q[i] - 1]);
              }
              check_equal(conj(e), rconj(r), "conj");
              cx.state(hash_r(r));
              cx.trans();
              cx.validated();
            });
  });
}
// Long monomials and polynomials of many terms
FAMILY(long_words) {
  std::vector<std::pair<std::vector<G>, int>> sets = {
      {{F(1, 0), F(0, 0), F(1, 1), F(0, 1)}, cx.pick(20, 32)},
      {{Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), Sg(2, 2, 1)}, cx.pick(20, 32)},
      {{F(1, 0), B(1, 0), B(0, 1), Sg(2, 3, 0)}, cx.pick(12, 16)},
  };
  for(auto const& p : sets) {
    cx.bound(mc::str("all words of length 1..3 over ", word_str(p.first), " repeated to lengths up to ", p.second, ", every fourth split"));
    mc::words(int(p.first.size()), 1, 3, [&](std::vector<int> const& w) {
      for(int len = 6; len <= p.second; len += 1 + len / 8) {
        std::vector<G> g;
        for(int i = 0; i < len; ++i)
          g.push_back(p.first[w[i % w.size()]]);
        cx.test([&] { return word_str(g); },
                [&] {
                  auto prod = [&](std::size_t b, std::size_t e) {
                    expression<CD, int> r(C(1));
                    for(std::size_t i = b; i < e; ++i)
                      r *= make_expr<CD>(g[i]);
                    return r;
                  };
                  auto e = C(1, 2) * prod(0, g.size());
                  auto c = conj(e);
                  MC_CHECK(conj(c) == e, "conj(conj(x)) != x");
                  expression<CD, int> rv(C(1, -2));
                  for(auto const& x : rev(g))
                    rv *= make_expr<CD>(x);
                  MC_CHECK(c == rv, "conj(x) = ", c, ", the reversed product is ", rv);
                  Sites L;
                  for(auto const& x : g)
                    L.add(x);
                  auto pe = pc(e), pcj = pc(c);
                  // <s|x|t> and <t|conj(x)|s> are conjugates: checked through the reversed word
                  if(boson_degree(g) < 6) same_operator(L, boson_degree(g), c, Poly<CD>{{C(1, -2), rev(g)}}, "conj(x)");
                  for(std::size_t k = 0; k <= g.size(); k += 4)
                    MC_CHECK(conj(C(1, 2) * prod(k, g.size())) * conj(prod(0, k)) == c, "conj(A*B) != conj(B)*conj(A), split at ", k);
                  cx.state(hash_poly(pcj));
                  cx.trans(g.size());
                  cx.validated(3);
                });
      }
    });
  }
}
FAMILY(many_terms) {
  std::vector<int> ns = cx.thorough() ? std::vector<int>{8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 513, 1000} : std::vector<int>{8, 9, 16, 17, 32, 33, 64, 65, 129, 256, 300};
  cx.bound(mc::str("polynomials of n terms, n from ", mc::vec_str(ns), ", of 6 kinds (monomials of one and of several generators, n different sites, conjugates present or not): conj, +hc, -hc, products with a binomial"));
  for(int n : ns)
    for(int kind = 0; kind < 6; ++kind)
      cx.test([&] { return mc::str(n, " terms, kind ", kind); },
              [&] {
                RPoly a;
                for(int i = 0; i < n; ++i) {
                  C c(1 + i % 5, i % 7 - 3);
                  if(kind == 0) radd(a, {F(i % 2, i)}, c);
                  if(kind == 1) radd(a, {F(1, i % 9), F(0, i / 9)}, c);
                  if(kind == 2) radd(a, {B(1, i % 3), B(0, i)}, c);
                  if(kind == 3) radd(a, {Sg(i % 3, 2 + i % 4, i / 3)}, c);
                  if(kind == 4) radd(a, {F(1, i), B(0, 1), Sg(i % 2, 2, i % 6)}, c);
                  if(kind == 5) {
                    std::vector<G> w;
                    for(int k = 0; k < 10; ++k)
                      if(i >> k & 1) w.push_back(F(1, k));
                    radd(a, w, c);
                  }
                }
                expression<CD, int> e = build<CD>(a);
                check_equal(conj(e), rconj(a), "conj");
                MC_CHECK(conj(conj(e)) == e, "conj(conj(x)) != x");
                check_equal(e + hc, rsum(a, rconj(a)), "x + hc");
                check_equal(e - hc, rsum(a, rconj(a), -1), "x - hc");
                expression<CD, int> b = build<CD>(rsum(rword({F(0, 2)}, C(0, 1)), rword({B(1, 0)}, 2)));
                if(n <= 300) MC_CHECK(conj(e * b) == conj(b) * conj(e), "conj(a*b)");
                check_equal(e, a, "argument");
                cx.state(hash_r(a));
                cx.trans(5);
                cx.validated(5);
              });
}
