// C16 for number types other than int and double
#include <boost/rational.hpp>
#include <gmpxx.h>
#include <libcommute/scalars/boost_rational.hpp>
#include <libcommute/scalars/gmpxx.hpp>
#include "ops.hpp"

template <typename A> struct amp {
  static A at(int k) { return k == 0 ? A(0) : k == 1 ? A(1) : k == 2 ? A(-3) : A(7) / A(2); }
};
template <typename T> struct amp<std::complex<T>> {
  static std::complex<T> at(int k) { return k == 0 ? std::complex<T>(0) : k == 1 ? std::complex<T>(1, 2) : k == 2 ? std::complex<T>(0, T(-1.5)) : std::complex<T>(-2); }
};
template <typename Sc, typename A> static void floating(mc::Ctx& cx, char const* name, std::vector<Sc> const& factors, double tol) {
  int K = cx.pick(2, 4);
  cx.bound(mc::str(name, ": 4 spaces, every operator of the pool times every factor, all states with amplitudes from ", K, " values, 6 source/destination type pairs, call, product and in-place forms"));
  for(int sp = 0; sp < 4; ++sp) {
    auto const& c = space(sp);
    Layout l = layout(c.set);
    HS hs = build(c.set);
    std::size_t n = get_vec_size(hs);
    auto valid = states(l);
    for(auto const& s : c.ops)
      for(auto const& f : factors)
        mc::tuples(std::vector<int>(valid.size(), K), [&](std::vector<int> const& t) {
          cx.test([&] { return mc::str(name, " ", set_str(c.set), f, " * ", sum_str(s), " on ", mc::vec_str(t)); },
                  [&] {
                    Accuracy acc(tol);
                    std::vector<A> a(n, A(0));
                    for(std::size_t i = 0; i < valid.size(); ++i)
                      a[valid[i]] = amp<A>::at(K == 2 ? 2 * t[i] : t[i]);
                    all_forms<Sc, A>(cx, hs, l, s, f, a);
                  });
        });
  }
}
FAMILY(single_precision) {
  floating<float, float>(cx, "float on float", {1.f, -0.5f}, 1e-5);
  floating<float, double>(cx, "float on double", {2.f}, 1e-5);
  floating<double, float>(cx, "double on float", {2.0}, 1e-5);
  floating<float, std::complex<float>>(cx, "float on complex<float>", {2.f}, 1e-5);
  floating<std::complex<float>, std::complex<float>>(cx, "complex<float> on complex<float>", {{1.5f, -2.f}}, 1e-5);
}
FAMILY(extended_precision) {
  using ld = long double;
  floating<ld, ld>(cx, "long double on long double", {1, -0.5}, 1e-10);
  floating<double, ld>(cx, "double on long double", {2}, 1e-10);
  floating<ld, std::complex<ld>>(cx, "long double on complex<long double>", {2}, 1e-10);
  floating<std::complex<ld>, std::complex<ld>>(cx, "complex<long double> on complex<long double>", {{1.5, -2}}, 1e-10);
}
// --- amplitudes that only the state's own number type can hold ----------------------------
// Fermionic operators with integer coefficients: nothing needs to be rounded
template <typename A> static A wide(int k);
template <> float wide<float>(int k) { return k == 0 ? 0 : k == 1 ? 1.f + std::ldexp(1.f, -18) : -7.f - std::ldexp(1.f, -17); }
template <> double wide<double>(int k) { return k == 0 ? 0 : k == 1 ? 1. + std::ldexp(1., -45) : -7. - std::ldexp(1., -44); }
template <> long double wide<long double>(int k) { return k == 0 ? 0 : k == 1 ? 1.L + std::ldexp(1.L, -57) : -7.L - std::ldexp(1.L, -56); }
template <> int wide<int>(int k) { return k == 0 ? 0 : k == 1 ? 100000007 : -90000001; }
template <> long wide<long>(int k) { return k == 0 ? 0 : k == 1 ? (1L << 58) + 1 : -(1L << 57) - 3; }
template <> mpz_class wide<mpz_class>(int k) { return k == 0 ? mpz_class(0) : k == 1 ? mpz_class("340282366920938463463374607431768211457") : mpz_class("-18446744073709551617"); }
template <> mpq_class wide<mpq_class>(int k) { return k == 0 ? mpq_class(0) : k == 1 ? mpq_class("340282366920938463463374607431768211457/3") : mpq_class("-18446744073709551617/18446744073709551629"); }
template <> boost::rational<long> wide<boost::rational<long>>(int k) { return k == 0 ? boost::rational<long>(0) : k == 1 ? boost::rational<long>(1000000007L, 1000000009L) : boost::rational<long>(-3, 1000000009L); }
template <> std::complex<double> wide<std::complex<double>>(int k) { return {wide<double>(k), wide<double>((k + 1) % 3)}; }
template <> std::complex<long double> wide<std::complex<long double>>(int k) { return {wide<long double>(k), wide<long double>((k + 2) % 3)}; }

template <typename V, typename A, typename Op_> static void exact_form(Op_ const& op, std::vector<A> const& a, std::vector<A> const& ref, char const* what) {
  V src = mk<V, A>::make(a);
  V dst = mk<V, A>::make(ref);
  op(src, dst);
  V r1 = op(src), r2 = op * src;
  for(std::size_t i = 0; i < a.size(); ++i) {
    MC_CHECK(get_element(dst, i) == ref[i], what, " in place: amplitude ", i, " = ", get_element(dst, i), " expected ", ref[i]);
    MC_CHECK(get_element(r1, i) == ref[i] && get_element(r2, i) == ref[i], what, " by value: amplitude ", i, " = ", get_element(r1, i), " and ", get_element(r2, i), " expected ", ref[i]);
    MC_CHECK(get_element(src, i) == a[i], what, ": source amplitude ", i, " became ", get_element(src, i));
  }
}
template <typename Sc, typename A> static void exact(mc::Ctx& cx, char const* name) {
  cx.bound(mc::str(name, ": every fermionic operator of the pool, all states with amplitudes 0 and two that no shorter number type can hold; results are exact"));
  auto const& c = space(0);
  HS hs = build(c.set);
  Layout l = layout(c.set);
  std::size_t n = get_vec_size(hs);
  for(auto const& s : c.ops)
    mc::tuples(std::vector<int>(n, 3), [&](std::vector<int> const& t) {
      cx.test([&] { return mc::str(name, ": ", sum_str(s), " on ", mc::vec_str(t)); },
              [&] {
                std::vector<A> a, ref(n, A(0));
                for(int k : t)
                  a.push_back(wide<A>(k));
                for(std::size_t i = 0; i < n; ++i)
                  for(auto const& p : column(l, s, i))
                    ref[p.first] += A(int(p.second.real())) * a[i];
                auto op = make_loperator(make_sum<Sc>(s, Sc(1)), hs);
                exact_form<std::vector<A>, A>(op, a, ref, "std::vector");
                exact_form<sparse_state_vector<A>, A>(op, a, ref, "sparse");
                // conjugation, sums and copies keep the numbers as well
                auto cop = op;
                exact_form<std::vector<A>, A>(cop, a, ref, "a copy");
                cx.trans(9);
                cx.validated();
                uint64_t h = mc::hcomb(sizeof(A), sizeof(Sc));
                for(int k : t)
                  h = mc::hcomb(h, k);
                cx.state(mc::hcomb(h, mc::hstr(sum_str(s))));
              });
    });
}
FAMILY(exact_amplitudes) {
  exact<float, float>(cx, "float on float");
  exact<float, double>(cx, "float on double");
  exact<double, double>(cx, "double on double");
  exact<float, long double>(cx, "float on long double");
  exact<double, long double>(cx, "double on long double");
  exact<long double, long double>(cx, "long double on long double");
  exact<int, double>(cx, "int on double");
  exact<int, int>(cx, "int on int");
  exact<int, long>(cx, "int on long");
  exact<long, long>(cx, "long on long");
  exact<short, long>(cx, "short on long");
  exact<int, mpz_class>(cx, "int on mpz");
  exact<mpz_class, mpz_class>(cx, "mpz on mpz");
  exact<int, mpq_class>(cx, "int on mpq");
  exact<mpq_class, mpq_class>(cx, "mpq on mpq");
  exact<boost::rational<long>, boost::rational<long>>(cx, "rational<long> on rational<long>");
  exact<double, std::complex<double>>(cx, "double on complex<double>");
  exact<std::complex<double>, std::complex<double>>(cx, "complex<double> on complex<double>");
  exact<long double, std::complex<long double>>(cx, "long double on complex<long double>");
  exact<std::complex<long double>, std::complex<long double>>(cx, "complex<long double> on complex<long double>");
}
