// C18 for other number types: coefficients return a number type whose every digit matters
#include <boost/rational.hpp>
#include <gmpxx.h>
#include <libcommute/scalars/boost_rational.hpp>
#include <libcommute/scalars/gmpxx.hpp>
#include "refop.hpp"
using namespace refop;

// coefficient a + b*x
template <typename T> struct Lin {
  T a, b;
  Lin(T a = T(0), T b = T(0)) : a(a), b(b) {}
  T operator()(T const& x) const { return T(a + b * x); }
  Lin& operator+=(Lin const& o) {
    a += o.a;
    b += o.b;
    return *this;
  }
  Lin& operator-=(Lin const& o) { return *this += -o; }
  Lin& operator*=(Lin const& o) { return *this = *this * o; }
  Lin operator+(Lin const& o) const { return Lin(*this) += o; }
  Lin operator-() const { return Lin(T(-a), T(-b)); }
  Lin operator-(Lin const& o) const { return Lin(*this) += -o; }
  Lin operator*(Lin const& o) const {
    MC_CHECK(b == T(0) || o.b == T(0), "product of two linear functions");
    return Lin(T(a * o.a), T(a * o.b + b * o.a));
  }
  bool operator==(Lin const& o) const { return a == o.a && b == o.b; }
};
namespace libcommute {
template <typename T> struct scalar_traits<Lin<T>> {
  static bool is_zero(Lin<T> const& l) { return l.a == T(0) && l.b == T(0); }
  static Lin<T> make_const(var_number const& x) { return Lin<T>(scalar_traits<T>::make_const(x)); }
};
} // namespace libcommute

template <typename T> static T fine(); // a number only T (or a longer type) can hold
template <> float fine<float>() { return 1.125f + std::ldexp(1.f, -18); }
template <> double fine<double>() { return 1.125 + std::ldexp(1., -45); }
template <> long double fine<long double>() { return 1.125L + std::ldexp(1.L, -56); }
template <> int fine<int>() { return 100000007; }
template <> long fine<long>() { return (1L << 57) + 1; }
template <> mpz_class fine<mpz_class>() { return mpz_class("340282366920938463463374607431768211457"); }
template <> mpq_class fine<mpq_class>() { return mpq_class("340282366920938463463374607431768211457/3"); }
template <> boost::rational<long> fine<boost::rational<long>>() { return {1000000007L, 1000000009L}; }
template <> std::complex<float> fine<std::complex<float>>() { return {1.125f + std::ldexp(1.f, -18), -1.125f - std::ldexp(1.f, -17)}; }
template <> std::complex<long double> fine<std::complex<long double>>() { return {1.125L + std::ldexp(1.L, -56), -1.125L - std::ldexp(1.L, -55)}; }

template <typename SV, typename A> static SV state(std::vector<A> const& a) {
  SV v = SV(a.size());
  for(std::size_t i = 0; i < a.size(); ++i)
    if(a[i] != A(0)) update_add_element(v, i, a[i]);
  return v;
}
template <typename T, typename SV, typename A, typename Op_> static void forms(Op_ const& op, std::vector<A> const& a, std::vector<A> const& ref, T const& x, char const* what) {
  auto same = [&](SV const& v, char const* form) {
    for(std::size_t i = 0; i < a.size(); ++i)
      MC_CHECK(A(get_element(v, i)) == ref[i], what, ", ", form, ": amplitude ", i, " = ", get_element(v, i), " expected ", ref[i]);
  };
  SV const src = state<SV, A>(a);
  same(op(src, x), "by value");
  SV dst = state<SV, A>(a);
  op(src, dst, x);
  same(dst, "in place");
  std::vector<T> coeffs(3, T(7));
  op.act_and_store_coeffs(src, dst, coeffs, x);
  same(dst, "with storage");
  op.act_and_store_coeffs(src, dst, coeffs, x);
  same(dst, "with storage again");
  auto fixed = op.at(x);
  same(fixed(src), "at()");
  fixed(src, dst);
  same(dst, "at() in place");
}
// T is the number type of coefficients and parameters, A that of amplitudes
template <typename T, typename A> static void exact(mc::Ctx& cx, char const* name) {
  cx.bound(mc::str(name, ": coefficients a + b x, (a, b) from {0, 1, -2, fine}^2, on every operator with 1..3 fermionic monomials, x from {0, 1, 2}, states with amplitudes 0, 1 and -3 or fine ones and integer coefficients; exact comparison"));
  using W = std::vector<Op>;
  Op c0{0, 1, 2, 0}, a0{0, 0, 2, 0}, c1{0, 1, 2, 1}, a1{0, 0, 2, 1};
  std::vector<W> words{{}, {c0, a1}, {c0, a0}};
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}};
  HS hs = build(set);
  Layout l = layout(set);
  for(int which = 0; which < 2; ++which) // fine coefficients or fine amplitudes
    mc::tuples(std::vector<int>(words.size(), which ? 3 : 5), [&](std::vector<int> const& ks) {
      cx.test([&] { return mc::str(name, which ? " fine amplitudes, " : " fine coefficients, ", mc::vec_str(ks)); },
              [&] {
                std::vector<Lin<T>> pool{Lin<T>(), Lin<T>(T(1), T(-2)), Lin<T>(T(0), T(1)), Lin<T>(fine<T>(), T(0)), Lin<T>(T(-2), fine<T>())};
                expression<Lin<T>, int> e;
                for(std::size_t k = 0; k < words.size(); ++k)
                  if(ks[k]) {
                    auto u = to_expr<double>(words[k]);
                    for(auto const& m : u)
                      e += expression<Lin<T>, int>(pool[ks[k]], m.monomial);
                  }
                auto op = make_param_loperator(e, hs);
                for(int xi = 0; xi < 3; ++xi) {
                  T x(xi);
                  mc::tuples(std::vector<int>(4, which ? 3 : 2), [&](std::vector<int> const& t) {
                    std::vector<A> a, ref(4, A(0));
                    for(int k : t)
                      a.push_back(k == 0 ? A(0) : which ? (k == 1 ? fine<A>() : A(-3)) : A(k == 1 ? 1 : -3));
                    for(std::size_t k = 0; k < words.size(); ++k)
                      if(ks[k]) {
                        T c = T(pool[ks[k]].a + pool[ks[k]].b * x);
                        Sum s{{1, words[k]}};
                        for(std::size_t i = 0; i < 4; ++i)
                          for(auto const& p : column(l, s, i))
                            ref[p.first] += A(A(c) * A(int(p.second.real())) * a[i]);
                      }
                    forms<T, std::vector<A>, A>(op, a, ref, x, "std::vector");
                    forms<T, sparse_state_vector<A>, A>(op, a, ref, x, "sparse");
                    cx.trans(12);
                    cx.validated();
                  });
                  cx.state(mc::hcomb(mc::hstr(mc::str(name, which, xi)), mc::hstr(mc::vec_str(ks))));
                }
              });
    });
}
FAMILY(number_types) {
  exact<float, float>(cx, "float on float");
  exact<float, double>(cx, "float on double");
  exact<double, double>(cx, "double on double");
  exact<double, long double>(cx, "double on long double");
  exact<long double, long double>(cx, "long double on long double");
  exact<int, int>(cx, "int on int");
  exact<int, long>(cx, "int on long");
  exact<long, long>(cx, "long on long");
  exact<mpz_class, mpz_class>(cx, "mpz on mpz");
  exact<mpq_class, mpq_class>(cx, "mpq on mpq");
  exact<boost::rational<long>, boost::rational<long>>(cx, "rational<long> on rational<long>");
  exact<float, std::complex<float>>(cx, "float on complex<float>");
  exact<std::complex<float>, std::complex<float>>(cx, "complex<float> on complex<float>");
  exact<long double, std::complex<long double>>(cx, "long double on complex<long double>");
  exact<std::complex<long double>, std::complex<long double>>(cx, "complex<long double> on complex<long double>");
}
