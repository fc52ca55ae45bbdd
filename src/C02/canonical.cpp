// C02: the stored form is canonical
#include "refpoly.hpp"
#include <numeric>
using namespace libcommute;
using namespace ref;
using E = expression<double, int>;

// every bracketing of gens[i..j)
static void bracketings(std::vector<E> const& f, int i, int j, std::vector<E>& out) {
  if(j - i == 1) {
    out.push_back(f[i]);
    return;
  }
  for(int k = i + 1; k < j; ++k) {
    std::vector<E> l, r;
    bracketings(f, i, k, l);
    bracketings(f, k, j, r);
    for(auto const& a : l)
      for(auto const& b : r)
        out.push_back(a * b);
  }
}

static void check_canonical(E const& e) {
  monomial<int> const* prev = nullptr;
  for(auto const& m : e.get_monomials()) {
    MC_CHECK(m.second != 0, "zero coefficient stored");
    MC_CHECK(m.first.is_ordered(), "monomial not ordered: ", word_str(decode(m.first, int_site())));
    auto w = decode(m.first, int_site());
    for(std::size_t i = 0; i + 1 < w.size(); ++i) {
      MC_CHECK(!oless(w[i + 1], w[i]), "monomial not in documented order: ", word_str(w));
      std::vector<std::pair<double, std::vector<G>>> t;
      MC_CHECK(!rewrite_at(w, i, t), "monomial reducible: ", word_str(w));
    }
    MC_CHECK(!nilpotent_run(w), "monomial contains a vanishing power: ", word_str(w));
    if(prev) MC_CHECK(*prev < m.first && !(m.first < *prev) && !(*prev == m.first), "monomials not strictly increasing");
    prev = &m.first;
    // renormalising a stored monomial changes nothing
    E again(m.second, m.first);
    MC_CHECK(again.size() == 1 && again.get_monomials().begin()->first == m.first && again.get_monomials().begin()->second == m.second,
             "renormalisation changes ", word_str(w));
  }
}

static void check_word(mc::Ctx& cx, std::vector<G> const& w) {
  std::vector<E> fac;
  for(auto const& g : w)
    fac.push_back(make_expr<double>(g));
  std::vector<E> all;
  if(w.empty())
    all.push_back(E(1.0));
  else
    bracketings(fac, 0, int(w.size()), all);
  std::vector<std::shared_ptr<const generator<int>>> gens;
  for(auto const& g : w)
    gens.push_back(make_gen(g));
  all.push_back(E(1.0, monomial<int>(gens)));
  cx.trans(all.size());
  RPoly r = rword(w);
  cx.state(hash_r(r));
  for(auto const& e : all)
    check_equal(e, r, "word " + word_str(w));
  for(auto const& e : all) {
    MC_CHECK(e == all[0] && !(e != all[0]), "== is not reflexive over routes");
  }
  check_canonical(all[0]);
  cx.validated(all.size());
}

static bool spin_ok(std::vector<G> const& w) {
  // uniqueness is claimed below the nilpotency bound of higher spins
  std::map<std::tuple<int, int, int>, int> cnt;
  for(auto const& g : w)
    if(g.alg == SPIN && g.mult > 2 && g.comp != 2 && ++cnt[std::make_tuple(g.mult, g.site, g.comp)] > g.mult - 1) return false;
  return true;
}

static void all_words(mc::Ctx& cx, std::vector<G> const& alpha, int lo, int hi) {
  cx.bound(mc::str("all bracketings of all words of length ", lo, "..", hi, " over ", word_str(alpha)));
  mc::words(int(alpha.size()), lo, hi, [&](std::vector<int> const& w) {
    std::vector<G> g;
    for(int i : w)
      g.push_back(alpha[i]);
    if(!spin_ok(g)) return;
    cx.test([&] { return word_str(g); }, [&] { check_word(cx, g); });
  });
}

FAMILY(a_fermion) {
  all_words(cx, {F(1, 0), F(0, 0), F(1, 1), F(0, 1)}, 0, cx.pick(5, 6));
  all_words(cx, {F(1, 0), F(0, 0), F(1, 1), F(0, 1), F(1, 2), F(0, 2)}, 2, cx.pick(4, 5));
}
FAMILY(b_boson) {
  all_words(cx, {B(1, 0), B(0, 0)}, 0, cx.pick(7, 8));
  all_words(cx, {B(1, 0), B(0, 0), B(1, 1), B(0, 1)}, 2, cx.pick(5, 6));
}
FAMILY(c_spin_half) {
  all_words(cx, {Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0)}, 0, cx.pick(6, 7));
  all_words(cx, {Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), Sg(0, 2, 1), Sg(1, 2, 1), Sg(2, 2, 1)}, 2, cx.pick(4, 5));
}
FAMILY(d_spin_higher) {
  for(int m = 3; m <= 6; ++m)
    all_words(cx, {Sg(0, m, 0), Sg(1, m, 0), Sg(2, m, 0)}, 0, cx.pick(6, 7));
  all_words(cx, {Sg(0, 3, 0), Sg(1, 3, 0), Sg(2, 3, 0), Sg(0, 3, 1), Sg(1, 3, 1), Sg(2, 3, 1)}, 2, cx.pick(4, 5));
  all_words(cx, {Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), Sg(0, 3, 0), Sg(1, 3, 0), Sg(2, 3, 0), Sg(1, 4, 0)}, 2, cx.pick(4, 5));
}
// Beyond the nilpotency bound only the operator is unique, but no stored monomial may
// contain a vanishing power, on any route
FAMILY(d_spin_vanishing) {
  auto run = [&](std::vector<G> const& alpha, int lo, int hi) {
    cx.bound(mc::str("every result of every bracketing of all words of length ", lo, "..", hi, " over ", word_str(alpha), " with more than 2S raising or lowering factors is in canonical form"));
    mc::words(int(alpha.size()), lo, hi, [&](std::vector<int> const& w) {
      std::vector<G> g;
      for(int i : w)
        g.push_back(alpha[i]);
      if(spin_ok(g)) return;
      cx.test([&] { return word_str(g); },
              [&] {
                std::vector<E> fac, all;
                std::vector<std::shared_ptr<const generator<int>>> gens;
                for(auto const& x : g) {
                  fac.push_back(make_expr<double>(x));
                  gens.push_back(make_gen(x));
                }
                bracketings(fac, 0, int(g.size()), all);
                all.push_back(E(1.0, monomial<int>(gens)));
                for(auto const& e : all)
                  check_canonical(e);
                bool one = true; // a power of one raising or lowering operator is nothing at all
                for(auto const& x : g)
                  one = one && x.comp == g[0].comp && x.comp != 2 && x.site == g[0].site && x.mult == g[0].mult;
                if(one)
                  for(auto const& e : all)
                    MC_CHECK(e.size() == 0, "a vanishing power is stored: ", e);
                cx.trans(all.size());
                cx.validated(all.size());
                cx.state(hash_r(rword(g)));
              });
    });
  };
  run({Sg(0, 3, 0), Sg(1, 3, 0), Sg(2, 3, 0)}, 3, cx.pick(6, 7));
  run({Sg(0, 4, 0), Sg(1, 4, 0), Sg(2, 4, 0)}, 4, cx.pick(6, 7));
  run({Sg(0, 5, 0), Sg(1, 5, 0)}, 5, cx.pick(7, 8));
  run({Sg(0, 3, 0), Sg(1, 3, 0), Sg(0, 3, 1), F(1, 0), F(0, 0)}, 3, cx.pick(5, 6));
  for(int m = 3; m <= cx.pick(9, 10); ++m)
    for(int comp = 0; comp < 2; ++comp)
      run({Sg(comp, m, 0)}, m, cx.pick(9, 11));
}
FAMILY(e_mixed) {
  all_words(cx, {F(1, 0), F(0, 0), F(1, 1), B(1, 0), B(0, 0), Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), Sg(0, 3, 0), Sg(1, 3, 0)}, 2, cx.pick(4, 5));
}

// Distribution of products over sums; every order of summation
FAMILY(f_distribution) {
  std::vector<std::vector<G>> pool = {{}, {F(1, 0)}, {F(0, 0)}, {F(1, 0), F(0, 0)}, {F(0, 1)}, {B(0, 0)}, {B(1, 0)}, {Sg(0, 2, 0)}, {Sg(1, 2, 0)}, {Sg(2, 2, 0)}, {Sg(1, 3, 0)}};
  std::vector<double> coef = {1, -1, 0.5};
  struct T {
    std::size_t w;
    double c;
  };
  std::vector<T> terms;
  for(std::size_t i = 0; i < pool.size(); ++i)
    for(double c : coef)
      terms.push_back({i, c});
  cx.bound(mc::str("(t1+t2)*(t3+t4) for all quadruples over ", cx.pick(18, int(terms.size())), " terms; all 24 orders of summing 4 products"));
  int n = cx.pick(18, int(terms.size()));
  auto mk = [&](T const& t) {
    E e(1.0);
    for(auto const& g : pool[t.w])
      e = e * make_expr<double>(g);
    return t.c * e;
  };
  auto mr = [&](T const& t) { return rword(pool[t.w], t.c); };
  // take a spread of terms in the quick tier
  auto pick = [&](int i) { return terms[std::size_t(i) * terms.size() / n]; };
  mc::tuples({n, n, n, n}, [&](std::vector<int> const& q) {
    if(q[1] < q[0] || q[3] < q[2]) return;
    T t1 = pick(q[0]), t2 = pick(q[1]), t3 = pick(q[2]), t4 = pick(q[3]);
    cx.test([&] { return mc::str("(", t1.c, "*", word_str(pool[t1.w]), "+", t2.c, "*", word_str(pool[t2.w]), ")*(", t3.c, "*", word_str(pool[t3.w]), "+", t4.c, "*", word_str(pool[t4.w]), ")"); },
            [&] {
              E a = mk(t1) + mk(t2), b = mk(t3) + mk(t4);
              E prod = a * b;
              RPoly r = rmul(rsum(mr(t1), mr(t2)), rsum(mr(t3), mr(t4)));
              cx.state(hash_r(r));
              check_equal(prod, r, "product of sums");
              std::vector<E> p = {mk(t1) * mk(t3), mk(t1) * mk(t4), mk(t2) * mk(t3), mk(t2) * mk(t4)};
              std::vector<int> perm = {0, 1, 2, 3};
              do {
                E s;
                for(int i : perm)
                  s += p[i];
                MC_CHECK(s == prod, "sum of products in order ", mc::vec_str(perm), " differs");
              } while(std::next_permutation(perm.begin(), perm.end()));
              E s2 = (p[0] + p[1]) + (p[2] + p[3]), s3 = p[0] - (-p[1] - p[2]) + p[3];
              MC_CHECK(s2 == prod && s3 == prod, "grouped sums differ");
              check_canonical(prod);
              cx.trans(35);
              cx.validated(27);
            });
  });
}

// Scalar types in which products of non-zero elements can vanish (the
// documented requirement on a scalar type is only that it is a rng), and
// floating-point values below the zero threshold.
struct Z4 {
  int v = 0;
  Z4() = default;
  explicit Z4(int x) : v(((x % 4) + 4) % 4) {}
  friend Z4 operator+(Z4 a, Z4 b) { return Z4(a.v + b.v); }
  friend Z4 operator-(Z4 a, Z4 b) { return Z4(a.v - b.v); }
  friend Z4 operator*(Z4 a, Z4 b) { return Z4(a.v * b.v); }
  friend Z4 operator-(Z4 a) { return Z4(-a.v); }
  friend bool operator==(Z4 a, Z4 b) { return a.v == b.v; }
  friend std::ostream& operator<<(std::ostream& os, Z4 a) { return os << a.v; }
};
namespace libcommute {
template <> struct scalar_traits<Z4> {
  static bool is_zero(Z4 const& x) { return x.v == 0; }
  static Z4 make_const(double x) { return Z4(int(x)); }
  static Z4 make_const(var_number const& x) { return Z4(int(x)); }
  static Z4 conj(Z4 const& x) { return x; }
};
} // namespace libcommute

namespace {
template <typename S> struct Val; // small value alphabet
template <> struct Val<Z4> {
  static std::vector<Z4> get() { return {Z4(0), Z4(1), Z4(2), Z4(3)}; }
  static std::string s(Z4 x) { return std::to_string(x.v); }
};
template <> struct Val<double> {
  // exact powers of two on both sides of the zero threshold
  static std::vector<double> get() { return {0, 1, -2, std::ldexp(1, -24), -std::ldexp(1, -30)}; }
  static std::string s(double x) { return mc::str(x); }
};
template <> struct Val<std::complex<double>> {
  static std::vector<C> get() { return {0, 1, C(0, 2), std::ldexp(1, -24), C(0, -std::ldexp(1, -30)), C(std::ldexp(1, -30), 1)}; }
  static std::string s(C x) { return mc::str(x); }
};

template <typename S> void no_zero(expression<S, int> const& e, std::string const& what) {
  for(auto const& m : e.get_monomials())
    MC_CHECK(!scalar_traits<S>::is_zero(m.second), "zero coefficient stored by ", what);
}

template <typename S> void zero_family(mc::Ctx& cx) {
  using Ex = expression<S, int>;
  auto vals = Val<S>::get();
  std::vector<std::vector<G>> mons = {{}, {F(1, 0)}, {B(0, 0)}, {F(1, 0), F(0, 0)}, {F(0, 0), F(1, 0)}};
  int nv = int(vals.size()), nm = int(mons.size());
  cx.bound(mc::str("all a*M1 op b*M2 and scalar operations, ", nv, " values, ", nm, " monomials"));
  mc::tuples({nm, nv, nm, nv, nv}, [&](std::vector<int> const& t) {
    S a = vals[t[1]], b = vals[t[3]], s = vals[t[4]];
    cx.test([&] { return mc::str(Val<S>::s(a), "*", word_str(mons[t[0]]), " , ", Val<S>::s(b), "*", word_str(mons[t[2]]), " , scalar ", Val<S>::s(s)); },
            [&] {
              auto mk = [&](S v, std::vector<G> const& w) {
                std::vector<std::shared_ptr<const generator<int>>> gens;
                for(auto const& g : w)
                  gens.push_back(make_gen(g));
                return Ex(v, monomial<int>(gens));
              };
              Ex A = mk(a, mons[t[0]]), Bx = mk(b, mons[t[2]]);
              no_zero(A, "construction");
              Ex sum = A + Bx, dif = A - Bx, prod = A * Bx;
              no_zero(sum, "a+b");
              no_zero(dif, "a-b");
              no_zero(prod, "a*b");
              Ex c = sum;
              c *= Bx;
              no_zero(c, "(a+b)*=b");
              Ex d1 = sum * s, d2 = s * sum, d3 = sum;
              d3 *= s;
              no_zero(d1, "e*s");
              no_zero(d2, "s*e");
              no_zero(d3, "e*=s");
              MC_CHECK(d1 == d3 && d1 == d2, "forms of scalar multiplication differ");
              MC_CHECK(sum * Ex(s) == d1, "multiplication by a scalar and by a constant expression differ");
              Ex e1 = sum + s, e2 = s + sum, e3 = sum - s, e4 = s - sum, e5 = sum, e6 = sum;
              e5 += s;
              e6 -= s;
              no_zero(e1, "e+s");
              no_zero(e2, "s+e");
              no_zero(e3, "e-s");
              no_zero(e4, "s-e");
              no_zero(e5, "e+=s");
              no_zero(e6, "e-=s");
              MC_CHECK(e1 == e2 && e1 == e5 && e3 == e6, "forms of scalar addition differ");
              Ex n = -sum;
              no_zero(n, "-e");
              Ex cj = conj(sum);
              no_zero(cj, "conj");
              Ex tr = transform(sum, [&](monomial<int> const&, S const& x) { return x * s; });
              no_zero(tr, "transform");
              MC_CHECK(tr == d1, "transform(x -> x*s) differs from e*s");
              MC_CHECK((sum - sum) == Ex(), "e - e is not zero");
              Ex sa = sum;
              sa += sa;
              no_zero(sa, "e+=e");
              MC_CHECK(sa == sum + sum, "e += e differs from e + e");
              sa = sum;
              sa -= sa;
              MC_CHECK(sa == Ex(), "e -= e is not zero");
              cx.trans(20);
              cx.validated(20);
              uint64_t h = 5;
              for(auto const& m : prod.get_monomials())
                h = mc::hcomb(h, mc::hstr(mc::str(m.second, m.first)));
              cx.state(h);
            });
  });
}
} // namespace
FAMILY(g_zero_divisors) { zero_family<Z4>(cx); }
FAMILY(h_tiny_double) { zero_family<double>(cx); }
FAMILY(i_tiny_complex) { zero_family<std::complex<double>>(cx); }

// Conversions that can annihilate coefficients
FAMILY(j_conversion) {
  std::vector<double> vals = {0.25, 1, 0.5, -0.75, 2};
  mc::tuples({5, 5, 5}, [&](std::vector<int> const& t) {
    cx.test([&] { return mc::str("int expression from ", vals[t[0]], "*C+(0) + ", vals[t[1]], "*A(0) + ", vals[t[2]]); },
            [&] {
              E e = vals[t[0]] * make_expr<double>(F(1, 0)) + vals[t[1]] * make_expr<double>(B(0, 0)) + vals[t[2]];
              expression<int, int> i1(e), i2, i3;
              i2 = e;
              no_zero(i1, "converting construction");
              no_zero(i2, "converting assignment");
              MC_CHECK(i1 == i2, "converting construction and assignment differ");
              std::size_t n = 0;
              for(int k = 0; k < 3; ++k)
                n += (int(vals[t[k]]) != 0);
              MC_CHECK(i1.size() == n, "wrong number of monomials after conversion");
              cx.state(n);
              cx.trans(2);
              cx.validated();
            });
  });
}

// Operations on two scalar types: the result is that of converting both
// operands to the common type first, and stores no zero
namespace {
template <typename S> S sval(int k);
template <> int sval<int>(int k) { return std::vector<int>{0, 1, -1, 2}[k]; }
template <> double sval<double>(int k) { return std::vector<double>{0, 1, -1, 0.5}[k]; }
template <> C sval<C>(int k) { return std::vector<C>{0, 1, -1, C(0, 2)}[k]; }
template <> float sval<float>(int k) { return std::vector<float>{0, 1, -1, 0.5f}[k]; }

template <typename S1, typename S2> void mixed_family(mc::Ctx& cx, char const* n1, char const* n2) {
  using R = decltype(S1() + S2());
  using E1 = expression<S1, int>;
  using E2 = expression<S2, int>;
  using Er = expression<R, int>;
  std::vector<std::vector<G>> mons = {{}, {F(1, 0)}, {F(1, 0), F(0, 0)}};
  auto mono = [&](std::size_t i) {
    std::vector<std::shared_ptr<const generator<int>>> gens;
    for(auto const& g : mons[i])
      gens.push_back(make_gen(g));
    return monomial<int>(gens);
  };
  // coefficients of the three monomials of either operand; a scalar
  mc::tuples({4, 4, 4, 4, 4, 4}, [&](std::vector<int> const& t) {
    cx.test([&] { return mc::str(n1, " and ", n2, ", coefficients ", mc::vec_str(t), " of 1, C+(0), C+(0)C(0)"); },
            [&] {
              E1 a;
              E2 b;
              Er ca, cb;
              for(std::size_t i = 0; i < 3; ++i) {
                a += E1(sval<S1>(t[i]), mono(i));
                b += E2(sval<S2>(t[i + 3]), mono(i));
                ca += Er(R(sval<S1>(t[i])), mono(i));
                cb += Er(R(sval<S2>(t[i + 3])), mono(i));
              }
              auto same = [&](Er const& got, Er const& want, char const* what) {
                no_zero(got, what);
                MC_CHECK(got == want, "mixed ", what, " stores ", mc::str(got), " instead of ", mc::str(want));
                cx.trans();
                cx.validated();
              };
              same(a + b, ca + cb, "a+b");
              same(b + a, ca + cb, "b+a");
              same(a - b, ca - cb, "a-b");
              same(b - a, cb - ca, "b-a");
              same(a * b, ca * cb, "a*b");
              same(b * a, cb * ca, "b*a");
              same(Er(a), ca, "conversion of a");
              same(Er(b), cb, "conversion of b");
              for(int k = 0; k < 4; ++k) {
                S2 s = sval<S2>(k);
                R r = R(s);
                same(a + s, ca + r, "a+s");
                same(s + a, r + ca, "s+a");
                same(a - s, ca - r, "a-s");
                same(s - a, r - ca, "s-a");
                same(a * s, ca * r, "a*s");
                same(s * a, r * ca, "s*a");
              }
              uint64_t h = 7;
              Er const pr = ca * cb;
              for(auto const& m : pr.get_monomials())
                h = mc::hcomb(h, mc::hstr(mc::str(m.second, m.first)));
              cx.state(h);
            });
  });
}
} // namespace
FAMILY(k_mixed_scalars) {
  cx.bound("all pairs of polynomials over {1, C+(0), C+(0)C(0)} with 4 values per coefficient, in scalar types (int, double), (double, int), (double, complex), (complex, double), (int, float), (float, double): every binary and scalar operation equals the one after conversion to the common type");
  mixed_family<int, double>(cx, "int", "double");
  mixed_family<double, int>(cx, "double", "int");
  mixed_family<double, C>(cx, "double", "complex");
  mixed_family<C, double>(cx, "complex", "double");
  mixed_family<int, float>(cx, "int", "float");
  mixed_family<float, double>(cx, "float", "double");
}

// --- sums of many terms: every route of summation gives the same list -------------------
static std::vector<std::pair<double, std::vector<G>>> many(int n) {
  std::vector<std::pair<double, std::vector<G>>> p;
  for(int i = 0; i < n; ++i) {
    std::vector<G> w;
    switch(i % 6) {
    case 0: w = {F(1, i)}; break;
    case 1: w = {F(0, i / 2), F(1, i / 3)}; break;    // not in normal order
    case 2: w = {B(0, i / 4), B(1, i / 4)}; break;    // leaves a constant
    case 3: w = {Sg(i / 6 % 3, 3, i / 6)}; break;
    case 4: w = {Sg(0, 2, i % 5), Sg(1, 2, i % 5)}; break; // recurs
    default: w = {B(1, i / 12), F(1, i % 7), F(0, i % 3)};
    }
    p.emplace_back(double(i % 9 - 4), w);
  }
  return p;
}
FAMILY(many_terms) {
  std::vector<int> ns = cx.thorough() ? std::vector<int>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000} : std::vector<int>{8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257};
  cx.bound(mc::str("sums of n terms, n from ", mc::vec_str(ns), " (normal ordered or not, recurring, cancelling, leaving constants): 8 orders of summation, by +=, +, -=, -, halving, and removal of all terms again; product with a sum of k terms, distributed over both factors"));
  for(int n : ns)
    for(int k = 0; k < 8; ++k)
      cx.test([&] { return mc::str(n, " terms, order ", k); },
              [&] {
                auto P = many(n);
                RPoly r;
                for(auto const& t : P)
                  rnormal(t.second, t.first, r);
                std::vector<int> ord(n);
                for(int i = 0; i < n; ++i)
                  ord[i] = k == 0 ? i : k == 1 ? n - 1 - i : k == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : 0;
                if(k >= 3) { // strides
                  int s = 2 * k - 1, j = 0;
                  std::vector<char> used(n, 0);
                  for(int i = 0; i < n; ++i) {
                    while(used[j % n])
                      ++j;
                    ord[i] = j % n;
                    used[j % n] = 1;
                    j += s;
                  }
                }
                std::vector<E> terms;
                for(int i : ord) {
                  E e(P[i].first);
                  for(auto const& g : P[i].second)
                    e = e * make_expr<double>(g);
                  terms.push_back(e);
                }
                E a, b, c, d;
                for(auto const& t : terms) {
                  a += t;
                  b = b + t;
                  c -= -t;
                  d = t + d;
                }
                std::function<E(int, int)> halve = [&](int i, int j) { return j - i == 1 ? terms[i] : halve(i, (i + j) / 2) + halve((i + j) / 2, j); };
                E h = halve(0, n);
                for(E const* e : {&a, &b, &c, &d, &h}) {
                  check_equal(*e, r, "sum");
                  MC_CHECK(*e == a && !(*e != a), "== of two routes to the same sum");
                }
                check_canonical(a);
                // nearly equal expressions are not equal
                if(k < 2 && !r.empty()) {
                  E x = a;
                  auto it = x.get_monomials().begin();
                  std::advance(it, (k * n / 2) % x.size());
                  it->second += 1;
                  MC_CHECK(!(x == a) && x != a, "expressions that differ in one coefficient compare equal");
                  it->second -= 1;
                  MC_CHECK(x == a, "restored");
                  x.get_monomials().erase(std::prev(x.get_monomials().end()));
                  MC_CHECK(!(x == a) && x != a && !(a == x), "expressions of different length compare equal");
                }
                // and everything cancels again
                E z = a, y = h;
                for(int i = n - 1; i >= 0; --i) {
                  z -= terms[i];
                  y = y - terms[(i * 7) % n];
                }
                MC_CHECK(z.size() == 0 && z == E(), "all terms subtracted again: ", z.size(), " terms are left");
                if(std::gcd(n, 7) == 1) MC_CHECK(y.size() == 0, "all terms subtracted in another order: ", y.size(), " terms are left");
                if(n <= 33) {
                  E q = make_expr<double>(F(1, 1)) + 2.0 * make_expr<double>(B(1, 0)) - make_expr<double>(Sg(2, 2, 0)) + 3.0, pq = a * q, qp = q * a, s1, s2;
                  for(auto const& t : terms) {
                    s1 += t * q;
                    s2 = q * t + s2;
                  }
                  MC_CHECK(pq == s1, "(sum)*q and sum of t*q");
                  MC_CHECK(qp == s2, "q*(sum) and sum of q*t");
                  E t = a;
                  t *= q;
                  MC_CHECK(t == pq, "*= and *");
                  check_canonical(pq);
                  check_canonical(qp);
                }
                cx.trans(5 * n);
                cx.validated(7);
                cx.state(hash_r(r));
              });
}
