// C10: exact scalar types stay exact, unrepresentable constants are refused
#include "refpoly.hpp"
#include <boost/rational.hpp>
#include <gmpxx.h>
#include <libcommute/scalars/boost_rational.hpp>
#include <libcommute/scalars/gmpxx.hpp>
using namespace ref;
using namespace libcommute;
using mpz = mpz_class;
using mpq = mpq_class;
using mpf = mpf_class;
template <typename I> using brat = boost::rational<I>;

// --- exact reference polynomial -------------------------------------------------
using QPoly = std::map<std::vector<G>, mpq, WordLess>;
static void qadd(QPoly& p, std::vector<G> const& w, mpq const& c) {
  mpq& v = p[w];
  v += c;
  if(v == 0) p.erase(w);
}
static QPoly from_r(RPoly const& r) {
  QPoly p;
  for(auto const& t : r)
    qadd(p, t.first, mpq(t.second.real()));
  return p;
}
static QPoly qsum(QPoly a, QPoly const& b, mpq const& s = 1) {
  for(auto const& t : b)
    qadd(a, t.first, t.second * s);
  return a;
}
static QPoly qmul(QPoly const& a, QPoly const& b) {
  QPoly r;
  for(auto const& x : a)
    for(auto const& y : b) {
      std::vector<G> w = x.first;
      w.insert(w.end(), y.first.begin(), y.first.end());
      for(auto const& t : rword(w))
        qadd(r, t.first, mpq(t.second.real()) * x.second * y.second);
    }
  return r;
}
static QPoly qscale(QPoly const& a, mpq const& s) {
  QPoly r;
  for(auto const& x : a)
    qadd(r, x.first, x.second * s);
  return r;
}
static std::string qstr(QPoly const& p) {
  std::ostringstream os;
  for(auto const& t : p)
    os << t.second << "*" << word_str(t.first) << "; ";
  return p.empty() ? "0" : os.str();
}

// --- scalar types ------------------------------------------------------------------
template <typename S> struct TT;
template <typename S> struct int_tt {
  static mpq to_q(S const& s) { return mpq(mpz(long(s))); }
  static S from_q(mpq const& q) { return S(q.get_num().get_si()); }
  static bool rep(mpq const& q) { return q.get_den() == 1; }
  static constexpr bool exact = true, field = false;
  static constexpr double big = sizeof(S) == 4 ? 1e9 : 4e18;
};
template <> struct TT<int> : int_tt<int> { static constexpr char const* name = "int"; };
template <> struct TT<long> : int_tt<long> { static constexpr char const* name = "long"; };
template <> struct TT<long long> : int_tt<long long> { static constexpr char const* name = "long long"; };
template <> struct TT<mpz> {
  static mpq to_q(mpz const& s) { return mpq(s); }
  static mpz from_q(mpq const& q) { return q.get_num(); }
  static bool rep(mpq const& q) { return q.get_den() == 1; }
  static constexpr bool exact = true, field = false;
  static constexpr double big = 1e300;
  static constexpr char const* name = "mpz";
};
template <> struct TT<mpq> {
  static mpq to_q(mpq const& s) { return s; }
  static mpq from_q(mpq const& q) { return q; }
  static bool rep(mpq const&) { return true; }
  static constexpr bool exact = true, field = true;
  static constexpr double big = 1e300;
  static constexpr char const* name = "mpq";
};
template <typename I> struct TT<brat<I>> {
  static mpq to_q(brat<I> const& s) {
    mpq r(mpz(long(s.numerator())), mpz(long(s.denominator())));
    r.canonicalize();
    return r;
  }
  static brat<I> from_q(mpq const& q) { return brat<I>(I(q.get_num().get_si()), I(q.get_den().get_si())); }
  static bool rep(mpq const&) { return true; }
  static constexpr bool exact = true, field = true;
  static constexpr double big = sizeof(I) == 4 ? 4e4 : 2e9;
  static constexpr char const* name = sizeof(I) == 4 ? "boost::rational<int>" : "boost::rational<long>";
};
template <typename S> struct float_tt {
  static mpq to_q(S const& s) { return mpq(double(s)); }
  static S from_q(mpq const& q) { return S(q.get_d()); }
  static bool rep(mpq const& q) { return mpq(double(S(q.get_d()))) == q; }
  static bool rep_dyadic(mpq const& q) { return mpz_scan1(q.get_den().get_mpz_t(), 0) == mpz_sizeinbase(q.get_den().get_mpz_t(), 2) - 1; }
  static constexpr bool exact = false, field = true;
  static constexpr double big = sizeof(S) == 4 ? 1e7 : 9e15;
};
template <> struct TT<float> : float_tt<float> { static constexpr char const* name = "float"; };
template <> struct TT<double> : float_tt<double> { static constexpr char const* name = "double"; };
template <> struct TT<long double> : float_tt<long double> { static constexpr char const* name = "long double"; };
template <> struct TT<std::complex<double>> {
  static mpq to_q(std::complex<double> const& s) {
    MC_CHECK(s.imag() == 0, "imaginary part appeared");
    return mpq(s.real());
  }
  static std::complex<double> from_q(mpq const& q) { return q.get_d(); }
  static bool rep(mpq const& q) { return TT<double>::rep(q); }
  static constexpr bool exact = false, field = true;
  static constexpr double big = 9e15;
  static constexpr char const* name = "complex<double>";
};
template <> struct TT<mpf> {
  static mpq to_q(mpf const& s) { return mpq(s); }
  static mpf from_q(mpq const& q) { return mpf(q); }
  static bool rep(mpq const& q) { return TT<double>::rep(q); }
  static constexpr bool exact = false, field = true;
  static constexpr double big = 9e15;
  static constexpr char const* name = "mpf";
};

template <typename S> static QPoly decode_q(expression<S, int> const& e) {
  QPoly r;
  for(auto const& m : e.get_monomials()) {
    mpq q = TT<S>::to_q(m.second);
    MC_CHECK(q != 0, "zero coefficient stored");
    auto w = decode(m.first, int_site());
    MC_CHECK(!r.count(w), "monomial stored twice");
    r[w] = q;
  }
  return r;
}
template <typename S> static void same(expression<S, int> const& e, QPoly const& q, std::string const& what) {
  QPoly d = decode_q(e);
  if(d != q) mc::fail(what + " over " + TT<S>::name + ": got " + qstr(d) + " expected " + qstr(q));
}
static uint64_t hq(QPoly const& p) { return mc::hstr(qstr(p)); }
template <typename... T> struct List {};
template <typename F, typename... T> static void each(List<T...>, F&& f) {
  int d[] = {0, (f((T*)nullptr), 0)...};
  (void)d;
}
using AllTypes = List<int, long, mpz, mpq, brat<int>, brat<long>, float, double, long double, std::complex<double>, mpf>;

// --- words: every scalar type, all words ------------------------------------------------
// expectation: result is exact, or (scalar type is not a field and the algebra
// has half-integer constants) an exception is thrown.
static void words_of(mc::Ctx& cx, std::vector<G> const& alpha, int maxlen, bool may_throw) {
  mc::words(int(alpha.size()), 1, maxlen, [&](std::vector<int> const& wi) {
    // beyond 2S raising (lowering) operators of one site only the operator
    // value is unique, not its canonical form
    std::map<std::pair<int, int>, int> ladder;
    for(int i : wi) {
      G const& g = alpha[i];
      if(g.alg == SPIN && g.mult > 2 && g.comp != 2 && ++ladder[{g.mult, g.comp}] >= g.mult) return;
    }
    cx.test(
        [&] {
          std::vector<G> w;
          for(int i : wi)
            w.push_back(alpha[i]);
          return word_str(w);
        },
        [&] {
          std::vector<G> w;
          for(int i : wi)
            w.push_back(alpha[i]);
          QPoly expect = from_r(rword(w));
          cx.state(hq(expect));
          each(AllTypes{}, [&](auto* tp) {
            using S = std::remove_pointer_t<decltype(tp)>;
            // three prefactors; the last one is divisible by all denominators
            for(long pre : {1L, 3L, 1L << w.size()}) {
              for(bool oneshot : {false, true}) {
                QPoly ex = qscale(expect, mpq(pre));
                try {
                  expression<S, int> e;
                  if(oneshot) {
                    std::vector<std::shared_ptr<const generator<int>>> gens;
                    for(auto const& g : w)
                      gens.push_back(make_gen(g));
                    // the product of two monomials concatenates them
                    std::vector<std::shared_ptr<const generator<int>>> g1(gens.begin(), gens.begin() + 1), g2(gens.begin() + 1, gens.end());
                    // second factor has to be canonical by itself
                    bool ok = true;
                    for(std::size_t i = 1; i + 1 < w.size(); ++i)
                      if(!oless(w[i], w[i + 1])) ok = false;
                    if(!ok) continue;
                    if(may_throw && w.size() > 2) continue; // Pauli words reduce
                    e = expression<S, int>(TT<S>::from_q(mpq(pre)), monomial<int>(g1)) * expression<S, int>(TT<S>::from_q(1), monomial<int>(g2));
                  } else {
                    e = expression<S, int>(TT<S>::from_q(mpq(pre)));
                    for(auto const& g : w)
                      e = e * make_expr<S>(g);
                  }
                  cx.trans(w.size());
                  same(e, ex, mc::str(pre, "*", word_str(w)));
                } catch(std::runtime_error const& x) {
                  if(TT<S>::field || !may_throw) mc::fail(mc::str("refused over ", TT<S>::name, ": ", x.what()));
                }
                cx.validated();
              }
            }
          });
        });
  });
}
FAMILY(words_integer_algebras) {
  int L = cx.pick(4, 5);
  cx.bound(mc::str("fermions(2 sites)+bosons(1 site): all words to length ", L, ", 11 scalar types, 3 prefactors"));
  words_of(cx, {F(1, 0), F(0, 0), F(1, 1), F(0, 1), B(1, 0), B(0, 0)}, L, false);
}
FAMILY(words_bosons) {
  int L = cx.pick(7, 9);
  cx.bound(mc::str("bosons(1 site): all words to length ", L));
  words_of(cx, {B(1, 0), B(0, 0)}, L, false);
}
FAMILY(words_higher_spin) {
  int L = cx.pick(4, 5);
  cx.bound(mc::str("spin 1 and spin 3/2 generators: all words to length ", L, " (structure constants are integer: no scalar type may refuse)"));
  words_of(cx, {Sg(0, 3, 0), Sg(1, 3, 0), Sg(2, 3, 0), Sg(0, 4, 0), Sg(1, 4, 0), Sg(2, 4, 0)}, L, false);
}
FAMILY(words_spin_half) {
  int L = cx.pick(5, 6);
  cx.bound(mc::str("spin 1/2 + a fermion: all words to length ", L, " (constants +-1/2, 1/4: rational types exact, integer types exact or refused)"));
  words_of(cx, {Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), F(1, 0), F(0, 0)}, L, true);
}

// --- arithmetic histories with large coefficients ------------------------------------------
template <typename S> static void arith(mc::Ctx& cx, std::vector<mpq> const& scal, int depth, bool allow_spin_half) {
  std::vector<QPoly> rleaf;
  std::vector<expression<S, int>> leaf;
  auto addl = [&](G g, mpq c) {
    QPoly q;
    q[{g}] = c;
    rleaf.push_back(q);
    leaf.push_back(TT<S>::from_q(c) * make_expr<S>(g));
  };
  for(auto const& s : scal)
    addl(B(0, 0), s);
  addl(F(1, 0), scal[0]);
  rleaf.push_back(qsum(rleaf[0], from_r(rword({B(1, 0)}))));
  leaf.push_back(leaf[0] + make_expr<S>(B(1, 0)));
  if(allow_spin_half) {
    rleaf.push_back(from_r(rsum(rword({Sg(1, 2, 0)}), rword({Sg(0, 2, 0)}))));
    leaf.push_back(make_expr<S>(Sg(1, 2, 0)) + make_expr<S>(Sg(0, 2, 0)));
  }
  int nl = int(leaf.size()), ns = int(scal.size());
  int nops = 3 * nl + 8 * ns + 1;
  mc::words(nops, 1, depth, [&](std::vector<int> const& w) {
    cx.test([&] { return std::string(TT<S>::name) + " history " + mc::vec_str(w); },
            [&] {
              expression<S, int> e = leaf.back();
              QPoly q = rleaf.back();
              mpq prev = 0;
              auto fits = [&] { // stay within the range of fixed-width types
                if(TT<S>::big < 1e100 && prev * 3000001 * 16 > mpq(TT<S>::big) && scal[0] > 1000) return false;
                if(TT<S>::big < 1e100 && prev * 11 * 16 > mpq(TT<S>::big)) return false;
                for(auto const& t : q)
                  if(abs(t.second.get_num()) > TT<S>::big || t.second.get_den() > TT<S>::big) return false;
                return true;
              };
              for(int op : w) {
                prev = 0;
                for(auto const& t : q)
                  prev = std::max({prev, mpq(abs(t.second.get_num())), mpq(t.second.get_den())});
                if(op < 3 * nl) {
                  int l = op % nl;
                  switch(op / nl) {
                  case 0: q = qsum(q, rleaf[l]); if(!fits()) return; e = e + leaf[l]; break;
                  case 1: q = qsum(q, rleaf[l], -1); if(!fits()) return; e -= leaf[l]; break;
                  case 2: q = qmul(q, rleaf[l]); if(!fits()) return; e = e * leaf[l]; break;
                  }
                } else if(op < 3 * nl + 8 * ns) {
                  int k = (op - 3 * nl) % ns;
                  S s = TT<S>::from_q(scal[k]);
                  QPoly sq;
                  qadd(sq, {}, scal[k]);
                  switch((op - 3 * nl) / ns) {
                  case 0: q = qsum(q, sq); if(!fits()) return; e = e + s; break;
                  case 1: q = qsum(q, sq); if(!fits()) return; e = s + e; break;
                  case 2: q = qsum(q, sq, -1); if(!fits()) return; e = e - s; break;
                  case 3: q = qsum(sq, q, -1); if(!fits()) return; e = s - e; break;
                  case 4: q = qscale(q, scal[k]); if(!fits()) return; e = e * s; break;
                  case 5: q = qscale(q, scal[k]); if(!fits()) return; e = s * e; break;
                  case 6: q = qsum(q, sq); if(!fits()) return; e += s; break;
                  case 7: q = qscale(q, scal[k]); if(!fits()) return; e *= s; break;
                  }
                } else {
                  q = qscale(q, -1);
                  e = -e;
                }
                cx.trans();
                same(e, q, "history " + mc::vec_str(w));
                cx.validated();
              }
              cx.state(mc::hcomb(hq(q), mc::hstr(TT<S>::name)));
            });
  });
}
static mpq Q(char const* s) { mpq r(s); r.canonicalize(); return r; }
FAMILY(arith_mpz) {
  cx.bound(mc::str("mpz: all histories to depth ", cx.pick(2, 3), " over + - * and scalar forms, coefficients beyond 2^64"));
  arith<mpz>(cx, {Q("100000000000000000003"), Q("-7"), Q("18446744073709551616")}, cx.pick(2, 3), false);
}
FAMILY(arith_mpq) {
  cx.bound("mpq: same, coefficients p/q beyond 2^64, spin-1/2 constants included");
  arith<mpq>(cx, {Q("100000000000000000003/7"), Q("-1/3"), Q("18446744073709551616/9")}, cx.pick(2, 3), true);
}
FAMILY(arith_brat) {
  cx.bound("boost::rational<int>, <long>: same with small fractions");
  arith<brat<int>>(cx, {Q("2/7"), Q("-1/3"), Q("5/6")}, 2, true);
  arith<brat<long>>(cx, {Q("2/7"), Q("-1/3"), Q("5/6")}, cx.pick(2, 3), true);
}
FAMILY(arith_int) {
  cx.bound("int, long: same with integers");
  arith<int>(cx, {Q("7"), Q("-3"), Q("11")}, cx.pick(2, 3), false);
  arith<long>(cx, {Q("3000001"), Q("-3"), Q("11")}, cx.pick(2, 3), false);
}

// --- long oscillator contractions: coefficients are k! C(m,k) C(n,k) ----------------------------
FAMILY(oscillator) {
  int N = cx.pick(18, 26);
  cx.bound(mc::str("a^m a+^n, m,n <= ", N, ": exact contraction numbers up to ", N, "!"));
  for(int m = 0; m <= N; ++m)
    for(int n = 0; n <= N; ++n)
      cx.test([&] { return mc::str("a^", m, " a+^", n); },
              [&] {
                auto run = [&](auto* tp, int lim) {
                  using S = std::remove_pointer_t<decltype(tp)>;
                  if(std::min(m, n) > lim) return;
                  auto e = expression<S, int>(TT<S>::from_q(1));
                  for(int i = 0; i < m; ++i)
                    e = e * make_expr<S>(B(0, 0));
                  for(int i = 0; i < n; ++i)
                    e = e * make_expr<S>(B(1, 0));
                  cx.trans(m + n);
                  QPoly q;
                  for(int k = 0; k <= std::min(m, n); ++k) {
                    mpz c, d, f;
                    mpz_bin_uiui(c.get_mpz_t(), m, k);
                    mpz_bin_uiui(d.get_mpz_t(), n, k);
                    mpz_fac_ui(f.get_mpz_t(), k);
                    std::vector<G> w(n - k, B(1, 0));
                    w.insert(w.end(), m - k, B(0, 0));
                    q[w] = mpq(mpz(c * d * f));
                  }
                  same(e, q, mc::str("a^", m, " a+^", n));
                  cx.state(mc::hcomb(m * 100 + n, mc::hstr(TT<S>::name)));
                  cx.validated();
                };
                run((mpz*)nullptr, 1000);
                run((mpq*)nullptr, 1000);
                run((long*)nullptr, 10);
                run((brat<long>*)nullptr, 10);
                run((double*)nullptr, 7);
              });
}

// --- user-defined relations with every kind of constant ---------------------------------------
struct UG : generator<int> {
  static var_number C, K, L, P; // swap constant, constant term, linear coefficient, power constant
  UG(int k) : generator<int>(k) {}
  int k() const { return std::get<0>(indices()); }
  int algebra_id() const override { return min_user_defined_algebra_id; }
  var_number swap_with(generator<int> const& g2, linear_function_t& f) const override {
    f.set(K, std::make_shared<UG>(7), L);
    (void)g2;
    return C;
  }
  bool reduce_power(int, linear_function_t& f) const override {
    f.set(P);
    return k() == 9;
  }
};
var_number UG::C, UG::K, UG::L, UG::P;
static mpq vq(var_number const& v) {
  if(v.number_type == var_number::integer) return mpq(int(v));
  if(v.number_type == var_number::real) return mpq(double(v));
  mpq r{mpz(v.numerator()), mpz(v.denominator())};
  r.canonicalize();
  return r;
}
template <typename S> static void user_case(mc::Ctx& cx, std::vector<var_number> const& N, int which, int i, mpq const& pre) {
  UG::C = UG::K = UG::L = UG::P = 0;
  (which == 0 ? UG::C : which == 1 ? UG::K : which == 2 ? UG::L : UG::P) = N[i];
  using E = expression<S, int>;
  std::string what = mc::str("constant ", N[i], " at position ", which, " with prefactor ", pre, " over ", TT<S>::name);
  mpq v = vq(N[i]);
  std::map<std::vector<int>, mpq> expect;
  auto gm = [](int k) { return E(TT<S>::from_q(1), monomial<int>(std::vector<std::shared_ptr<const generator<int>>>{std::make_shared<UG>(k)})); };
  bool thrown = false;
  E e;
  try {
    if(which < 3) {
      e = TT<S>::from_q(pre) * gm(5) * gm(2); // out of order: 5 > 2
      std::vector<int> w = which == 0 ? std::vector<int>{2, 5} : which == 1 ? std::vector<int>{} : std::vector<int>{7};
      if(v != 0) expect[w] = v * pre;
    } else {
      e = TT<S>::from_q(pre) * gm(9) * gm(9) * gm(9);
      if(v != 0) expect[{}] = v * pre;
    }
  } catch(std::runtime_error const&) {
    thrown = true;
  }
  cx.trans();
  cx.validated();
  if(thrown) {
    bool plain_integer = N[i].number_type == var_number::integer;
    if(plain_integer || (TT<S>::field && N[i].number_type == var_number::rational) || !TT<S>::exact) mc::fail("refused: " + what);
    return;
  }
  if(!TT<S>::rep(v) && TT<S>::exact) mc::fail(mc::str("not refused: ", what, ", result ", TT<S>::to_q(e.get_monomials().empty() ? S(0) : e.get_monomials().begin()->second)));
  if(!TT<S>::rep(v)) return; // rounding is allowed in floating point types
  std::map<std::vector<int>, mpq> got;
  for(auto const& m : e.get_monomials()) {
    std::vector<int> w;
    for(auto const& g : m.first)
      w.push_back(dynamic_cast<UG const&>(g).k());
    got[w] = TT<S>::to_q(m.second);
  }
  if(got != expect) mc::fail("wrong result: " + what);
  // equality of values: the same coefficient computed by plain arithmetic
  if(!e.get_monomials().empty()) {
    S direct = TT<S>::from_q(v * pre);
    MC_CHECK(e.get_monomials().begin()->second == direct, "stored value does not compare equal to the plain one, ", what);
    E d = e - E(direct, monomial<int>(e.get_monomials().begin()->first));
    MC_CHECK(d.get_monomials().empty(), "difference from the plain value is not zero, ", what);
  }
  cx.state(mc::hstr(what));
}
FAMILY(user_constants) {
  cx.bound("user algebra: structure constant of every kind (integer, rational incl. not in lowest terms/negative denominator, real) at every position (c, constant, linear, power), 11 scalar types");
  std::vector<var_number> N{0, 1, -1, 2, -7, 2147483647, {1, 2}, {-1, 2}, {2, 4}, {3, -6}, {1, -2}, {6, 3}, {-8, 4}, {0, 5}, {7, 1}, {1, 3}, {-5, 7}, 0.5, -0.25, 2.0, -3.0, 0.0, 1.5, 1e-3};
  for(int which = 0; which < 4; ++which)
    for(int i = 0; i < int(N.size()); ++i)
      for(mpq pre : {Q("1"), Q("2"), Q("-3")})
        cx.test([&] { return mc::str("constant ", N[i], " at ", which, " prefactor ", pre); },
                [&] {
                  each(AllTypes{}, [&](auto* tp) {
                    using S = std::remove_pointer_t<decltype(tp)>;
                    if(N[i].number_type == var_number::integer && int(N[i]) == 2147483647 && (sizeof(S) <= 8)) {
                      if(pre != 1 || std::is_same<S, float>::value) return;
                    }
                    user_case<S>(cx, N, which, i, pre);
                  });
                });
}

// --- make_const and friends on a grid -------------------------------------------------------------
FAMILY(make_const) {
  cx.bound("scalar_traits of every type: make_const over a grid of doubles (up to 2^62, for mpz up to 2^300) and of integers up to 2^31-1, all rationals p/q with |p|<=12, 0<|q|<=12");
  std::vector<double> D;
  for(int i = -40; i <= 40; ++i)
    D.push_back(i / 8.0);
  for(double d : {1e6, 1e9, 1e9 + 0.5, -1e9, 1e-300, -1e-10, 1 + 1e-15, 0.1, 1.0 / 3, std::sqrt(2.0), std::sqrt(4.0), 2147483646.5, double(NAN)})
    D.push_back(d);
  for(int k = 10; k <= 300; k += k < 64 ? 1 : 59)
    for(int o = -1; o <= 1; ++o) {
      D.push_back(std::ldexp(1.0, k) + o);
      D.push_back(-std::ldexp(1.0, k) + o);
    }
  for(double d : D)
    cx.test([&] { return mc::str("double ", d); },
            [&] {
              each(AllTypes{}, [&](auto* tp) {
                using S = std::remove_pointer_t<decltype(tp)>;
                if(std::isnan(d) && !TT<S>::exact) return;
                bool narrow = std::is_same<S, int>::value || std::is_same<S, brat<int>>::value, wide = std::is_same<S, long>::value || std::is_same<S, brat<long>>::value;
                if((narrow && std::abs(d) > 2147483647.0) || (wide && std::abs(d) > 9e18)) return; // does not fit
                cx.trans();
                cx.validated();
                S s;
                try {
                  s = scalar_traits<S>::make_const(d);
                } catch(std::runtime_error const&) {
                  MC_CHECK(TT<S>::exact && (std::isnan(d) || std::nearbyint(d) != d), "make_const(", d, ") refused by ", TT<S>::name);
                  return;
                }
                MC_CHECK(!std::isnan(d), "NaN accepted by ", TT<S>::name);
                if(std::is_same<S, float>::value) return;
                MC_CHECK(TT<S>::to_q(s) == mpq(d), "make_const(", d, ") rounded by ", TT<S>::name, " to ", TT<S>::to_q(s));
                if(TT<S>::exact) MC_CHECK(scalar_traits<S>::is_zero(s) == (d == 0), "is_zero(", d, ") over ", TT<S>::name);
                S cs = scalar_traits<S>::conj(s);
                MC_CHECK(cs == s, "conj of a real number changed it over ", TT<S>::name);
                cx.state(mc::hcomb(mc::hdbl(d), mc::hstr(TT<S>::name)));
              });
            });
  for(int p = -12; p <= 12; ++p)
    for(int q = -12; q <= 12; ++q) {
      if(q == 0) continue;
      cx.test([&] { return mc::str("rational ", p, "/", q); },
              [&] {
                var_number v(p, q);
                mpq x = vq(v);
                MC_CHECK(v.is_zero() == (p == 0), "var_number::is_zero");
                MC_CHECK(v.numerator() == p && v.denominator() == q, "numerator/denominator");
                MC_CHECK(mc::close(double(v), double(p) / q), "double(var_number)");
                each(AllTypes{}, [&](auto* tp) {
                  using S = std::remove_pointer_t<decltype(tp)>;
                  cx.trans();
                  cx.validated();
                  S s;
                  try {
                    s = scalar_traits<S>::make_const(v);
                  } catch(std::runtime_error const&) {
                    MC_CHECK(TT<S>::exact && !TT<S>::field, "make_const(", v, ") refused by ", TT<S>::name);
                    return;
                  }
                  if(TT<S>::exact) {
                    MC_CHECK(TT<S>::to_q(s) == x, "make_const(", v, ") over ", TT<S>::name);
                    S t = TT<S>::from_q(x);
                    MC_CHECK(s == t, "make_const(", v, ") does not compare equal to the same number over ", TT<S>::name);
                    S diff = s - t;
                    MC_CHECK(scalar_traits<S>::is_zero(diff), "make_const(", v, ") minus the same number is not zero");
                  } else {
                    double ds = TT<S>::to_q(s).get_d();
                    MC_CHECK(mc::close(ds, double(p) / q, 1e-6), "make_const(", v, ") over ", TT<S>::name);
                  }
                });
              });
    }
}

// integer constants of every size that fits
FAMILY(make_const_integers) {
  cx.bound("make_const of every integer variant number +-2^k, +-(2^k +- 1) up to 2^31-1, over every scalar type");
  for(int k = 0; k <= 31; ++k)
    for(int o = -1; o <= 1; ++o)
      for(int sg : {-1, 1}) {
        long v = sg * ((1L << k) + o);
        if(v > 2147483647L || v < -2147483647L) continue;
        cx.test([&] { return mc::str("integer ", v); },
                [&] {
                  var_number vn{int(v)};
                  MC_CHECK(vn.is_zero() == (v == 0) && int(vn) == v && double(vn) == double(v), "variant number ", vn);
                  each(AllTypes{}, [&](auto* tp) {
                    using S = std::remove_pointer_t<decltype(tp)>;
                    S s = scalar_traits<S>::make_const(vn);
                    cx.trans();
                    cx.validated();
                    if(std::is_same<S, float>::value) return;
                    MC_CHECK(TT<S>::to_q(s) == mpq(v), "make_const(", v, ") over ", TT<S>::name);
                  });
                  cx.state(mc::hcomb(1, uint64_t(v)));
                });
      }
}
// large eigenvalues: powers of S_z
template <typename S> static void sz_powers(mc::Ctx& cx) {
  for(int m : {3, 5, 21, 51, 101, 201, 255})
    for(int k = 3; k <= 9; ++k)
      cx.test([&] { return mc::str(TT<S>::name, ": S_z^", k, " of multiplicity ", m); },
              [&] {
                double s = (m - 1) / 2;
                if(std::pow(s, k) > 9e15) return;
                expression<S, int> e = make_expr<S>(Sg(2, m, 0)), p = e;
                for(int i = 1; i < k; ++i)
                  p = p * e;
                hilbert_space<int> hs(static_indices::make_space_spin((m - 1) / 2.0, 0));
                loperator<S, fermion, boson, spin> op(p, hs);
                std::size_t n = get_vec_size(hs);
                for(int i = 0; i < m; ++i) {
                  std::vector<S> x(n, TT<S>::from_q(0));
                  x[i] = TT<S>::from_q(1);
                  auto y = op(x);
                  mpz ex = 1;
                  for(int j = 0; j < k; ++j)
                    ex *= i - (m - 1) / 2;
                  for(std::size_t o = 0; o < n; ++o)
                    MC_CHECK(TT<S>::to_q(y[o]) == (int(o) == i ? mpq(ex) : mpq(0)), "<", o, "|S_z^", k, "|", i, "> = ", TT<S>::to_q(y[o]), " over ", TT<S>::name);
                  cx.trans();
                }
                cx.validated();
                cx.state(mc::hcomb(m, mc::hcomb(k, mc::hstr(TT<S>::name))));
              });
}
FAMILY(large_eigenvalues) {
  cx.bound("powers 3..9 of S_z for 7 integer spins up to 127, eigenvalues up to 9e15, over long, mpz, mpq, boost::rational<long>: exact");
  sz_powers<long>(cx);
  sz_powers<mpz>(cx);
  sz_powers<mpq>(cx);
  sz_powers<brat<long>>(cx);
}
// --- matrix elements with exact scalars ---------------------------------------------------------------
template <typename S> static void lop_words(mc::Ctx& cx, std::vector<G> const& alpha, int L, int bdim_bits) {
  using HS = hilbert_space<int>;
  expression<S, int> all;
  Sites st;
  for(auto const& g : alpha) {
    all += make_expr<S>(g);
    st.add(g);
  }
  mc::words(int(alpha.size()), 0, L, [&](std::vector<int> const& wi) {
    cx.test([&] { return std::string(TT<S>::name) + " action of " + mc::vec_str(wi); },
            [&] {
              HS hs(all, boson_es_constructor(1 << bdim_bits));
              HS hsd = hs;
              expression<S, int> e;
              expression<double, int> ed;
              try {
                e = expression<S, int>(TT<S>::from_q(6));
                ed = expression<double, int>(6.0);
                for(int i : wi) {
                  e = e * make_expr<S>(alpha[i]);
                  ed = ed * make_expr<double>(alpha[i]);
                }
              } catch(std::runtime_error const&) {
                return; // refused while multiplying: covered above
              }
              loperator<S, fermion, boson, spin> op(e, hs);
              loperator<double, fermion, boson, spin> opd(ed, hsd);
              for(sv_index_type in = 0; in < hs.dim(); ++in) {
                std::vector<double> xd(hs.dim()), yd(hs.dim());
                std::vector<S> x(hs.dim(), TT<S>::from_q(0)), y(hs.dim(), TT<S>::from_q(0));
                x[in] = TT<S>::from_q(1);
                xd[in] = 1;
                opd(xd, yd);
                cx.trans();
                cx.validated();
                try {
                  op(x, y);
                } catch(std::runtime_error const&) {
                  continue; // an irrational or fractional factor was refused
                }
                for(sv_index_type o = 0; o < hs.dim(); ++o) {
                  double got = TT<S>::to_q(y[o]).get_d();
                  MC_CHECK(mc::close(got, yd[o], 1e-9), TT<S>::name, " <", o, "|", mc::vec_str(wi), "|", in, "> = ", got, ", expected ", yd[o]);
                }
                cx.state(mc::hcomb(in, mc::hcomb(mc::hstr(mc::vec_str(wi)), mc::hstr(TT<S>::name))));
              }
              // fermions have integer matrix elements: nothing may be refused
              bool pure_f = true;
              for(int i : wi)
                pure_f = pure_f && alpha[i].alg == FERMION;
              if(pure_f) {
                std::vector<S> x(hs.dim(), TT<S>::from_q(1)), y(hs.dim(), TT<S>::from_q(0));
                op(x, y);
              }
            });
  });
}
FAMILY(exact_action) {
  cx.bound("operators over int, mpz, mpq, boost::rational: every matrix element equals the double one or the action is refused; fermions are never refused");
  std::vector<G> f{F(1, 0), F(0, 0), F(1, 1), F(0, 1), F(1, 2)}, b{B(1, 0), B(0, 0)}, s{Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), Sg(0, 3, 0), Sg(2, 3, 0), Sg(2, 4, 0), Sg(1, 4, 0)};
  int L = cx.pick(3, 4);
  lop_words<int>(cx, f, L, 2);
  lop_words<mpz>(cx, f, L, 2);
  lop_words<mpq>(cx, f, L, 2);
  lop_words<brat<int>>(cx, f, L, 2);
  lop_words<int>(cx, b, L + 2, 3);
  lop_words<mpq>(cx, b, L + 2, 3);
  lop_words<mpz>(cx, b, L + 2, 3);
  lop_words<int>(cx, s, 2, 2);
  lop_words<mpq>(cx, s, 2, 2);
  lop_words<brat<long>>(cx, s, 2, 2);
}

// --- results across scalar types ------------------------------------------------------------------------
FAMILY(mixed_results) {
  cx.bound("sums, differences, products of expressions over two different scalar types: all pairs of a pool of values");
  std::vector<int> V{-3, -1, 1, 2, 5};
  for(int a : V)
    for(int b : V)
      for(int i = 0; i < 3; ++i)
        for(int j = 0; j < 3; ++j)
          cx.test([&] { return mc::str(a, "*g", i, " op ", b, "*g", j); },
                  [&] {
                    std::vector<G> g{B(0, 0), B(1, 0), F(1, 0)};
                    auto run = [&](auto* p1, auto* p2) {
                      using S1 = std::remove_pointer_t<decltype(p1)>;
                      using S2 = std::remove_pointer_t<decltype(p2)>;
                      auto x = TT<S1>::from_q(a) * make_expr<S1>(g[i]);
                      auto y = TT<S2>::from_q(b) * make_expr<S2>(g[j]);
                      QPoly qx, qy;
                      qx[{g[i]}] = a;
                      qy[{g[j]}] = b;
                      same(x + y, qsum(qx, qy), "sum");
                      same(y + x, qsum(qx, qy), "sum");
                      same(x - y, qsum(qx, qy, -1), "difference");
                      same(x * y, qmul(qx, qy), "product");
                      same(y * x, qmul(qy, qx), "product");
                      cx.trans(5);
                      cx.validated(5);
                    };
                    run((int*)nullptr, (long*)nullptr);
                    run((int*)nullptr, (double*)nullptr);
                    run((long*)nullptr, (float*)nullptr);
                    run((float*)nullptr, (double*)nullptr);
                    run((double*)nullptr, (std::complex<double>*)nullptr);
                    run((int*)nullptr, (long double*)nullptr);
                    cx.state(mc::hcomb(a * 100 + b, i * 10 + j));
                  });
}
