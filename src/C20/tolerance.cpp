// C20: which amplitudes count as zero. Compiled with the default tolerance and with two
// values of LIBCOMMUTE_FLOATING_POINT_TOL_EPS.
#include "fixtures.hpp"

#if defined(MC_CONFIG_tol1)
constexpr int tol_eps = 1;
#elif defined(MC_CONFIG_tol30000)
constexpr int tol_eps = 30000;
#else
constexpr int tol_eps = 100;
#endif
template <typename T> struct num {
  using real = T;
  static bool zero(T x) { return std::abs(x) < T(tol_eps) * std::numeric_limits<T>::epsilon(); }
  static T make(T re, T) { return re; }
  static constexpr bool cplx = false;
};
template <typename T> struct num<std::complex<T>> {
  using real = T;
  static bool zero(std::complex<T> x) { return num<T>::zero(x.real()) && num<T>::zero(x.imag()); }
  static std::complex<T> make(T re, T im) { return {re, im}; }
  static constexpr bool cplx = true;
};
template <typename F> struct Tolerance {
  using A = typename F::A;
  using R = typename num<A>::real;
  static std::vector<A> values() {
    R const t = R(tol_eps) * std::numeric_limits<R>::epsilon();
    std::vector<A> v{A(0), A(1)};
    for(R f : {R(0.5), R(0.98), R(1), R(1.02), R(50)})
      for(int s = -1; s <= 1; s += 2) {
        v.push_back(num<A>::make(s * f * t, 0));
        if(num<A>::cplx) {
          v.push_back(num<A>::make(R(0.7) * t, s * f * t));
          v.push_back(num<A>::make(s * f * t, R(-0.7) * t));
        }
      }
    return v;
  }
  static void expect(F& fx, std::vector<A> const& a, char const* what) {
    auto look = [&](auto const& sv) {
      std::map<uint64_t, A> seen, ref;
      for(int i = 0; i < N; ++i) {
        A const e = F::sparse && num<A>::zero(a[i]) ? A(0) : a[i];
        MC_CHECK(A(get_element(sv, i)) == e, F::name(), ", ", what, ": element ", i, " = ", get_element(sv, i), " expected ", e);
        if(!num<A>::zero(a[i])) ref[i] = a[i];
      }
      foreach(sv, [&](sv_index_type n, A const& x) { MC_CHECK(seen.emplace(n, x).second, F::name(), ", ", what, ": foreach() visited ", n, " twice"); });
      MC_CHECK(seen == ref, F::name(), ", ", what, ": foreach() visited ", seen.size(), " elements, expected ", ref.size());
    };
    fx.with([&](auto& sv) { look(sv); });
    fx.with_const([&](auto const& sv) { look(sv); });
    fx.check();
  }
  static void run(mc::Ctx& cx) {
    auto v = values();
    R const t = R(tol_eps) * std::numeric_limits<R>::epsilon();
    mc::tuples(std::vector<int>(2, int(v.size())), [&](std::vector<int> const& k) {
      cx.test([&] { return mc::str(F::name(), " ", v[k[0]] / t, " ", v[k[1]] / t, " tolerances"); },
              [&] {
                F fx;
                std::vector<A> a(N, A(0));
                fx.with([&](auto& sv) {
                  for(int i = 0; i < 2; ++i) {
                    update_add_element(sv, 2 * i, v[k[i]]);
                    a[2 * i] = v[k[i]];
                  }
                });
                expect(fx, a, "addition to zero");
                // residues of cancellation: larger numbers meet
                fx.with([&](auto& sv) {
                  set_zeros(sv);
                  for(int i = 0; i < 2; ++i) {
                    A const big = num<A>::make((i ? -1 : 1) * 1024 * t, 0), rest = v[k[i]] - big;
                    update_add_element(sv, 2 * i, big);
                    update_add_element(sv, 2 * i, rest);
                    a[2 * i] = big + rest;
                  }
                });
                expect(fx, a, "residue");
                cx.trans(6);
                cx.validated();
                cx.state(mc::hcomb(mc::hstr(mc::str(F::name(), sizeof(A))), mc::hcomb(k[0], k[1])));
              });
    });
  }
};
FAMILY(tolerance) {
  cx.bound(mc::str("tolerance of ", tol_eps, " epsilons: pairs of amplitudes 0, 1, +-f * tolerance with f from 0.5 to 50 (either component of complex numbers), added to zeros or left over from cancellation, in vectors of 14 types of 6 number types: element access, foreach()"));
  every_type<float, Tolerance>(cx);
  every_type<double, Tolerance>(cx);
  every_type<long double, Tolerance>(cx);
  every_type<std::complex<float>, Tolerance>(cx);
  every_type<cd, Tolerance>(cx);
  every_type<std::complex<long double>, Tolerance>(cx);
}
