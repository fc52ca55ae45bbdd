// C02: what counts as a zero coefficient, in every number type and on every route.
// Compiled with the default tolerance and with two values of
// LIBCOMMUTE_FLOATING_POINT_TOL_EPS.
#include <complex>
#include <libcommute/libcommute.hpp>
#include "mc.hpp"
using namespace libcommute;

#if defined(MC_CONFIG_tol1)
constexpr int tol_eps = 1;
#elif defined(MC_CONFIG_tol30000)
constexpr int tol_eps = 30000;
#else
constexpr int tol_eps = 100;
#endif
template <typename T> using Ex = expression<T, int>;

// The documented test: |x| < tol_eps * epsilon of the number type; both components of complex numbers
template <typename T> struct num {
  using real = T;
  static bool zero(T x) { return std::is_integral<T>::value ? x == 0 : std::abs(x) < T(tol_eps) * std::numeric_limits<T>::epsilon(); }
  static T make(T re, T) { return re; }
  static constexpr bool cplx = false;
};
template <typename T> struct num<std::complex<T>> {
  using real = T;
  static bool zero(std::complex<T> x) { return num<T>::zero(x.real()) && num<T>::zero(x.imag()); }
  static std::complex<T> make(T re, T im) { return {re, im}; }
  static constexpr bool cplx = true;
};
static std::vector<monomial<int>> const& monos() {
  using namespace static_indices;
  static std::vector<monomial<int>> ms = [] {
    auto mono = [](Ex<double> const& e) { return e.get_monomials().begin()->first; };
    return std::vector<monomial<int>>{monomial<int>{}, mono(c_dag<double>(0)), mono(c_dag<double>(0) * c<double>(1)), mono(a_dag<double>(0) * a_dag<double>(0)), mono(S_z<double>(0))};
  }();
  return ms;
}
template <typename T> static void stored(Ex<T> const& e, monomial<int> const& m, T v, std::string const& route) {
  auto const& ms = e.get_monomials();
  if(num<T>::zero(v)) {
    MC_CHECK(ms.empty() && e.size() == 0 && e == Ex<T>() && e.begin() == e.end(), route, ": ", v, " counts as zero, but the result is ", e);
  } else {
    MC_CHECK(ms.size() == 1, route, ": ", v, " does not count as zero, but the result has ", ms.size(), " terms");
    MC_CHECK(ms.begin()->first == m, route, ": wrong monomial in ", e);
    MC_CHECK(ms.begin()->second == v, route, ": coefficient ", ms.begin()->second, " expected ", v);
  }
}
template <typename T> static void routes(mc::Ctx& cx, monomial<int> const& m, T v) {
  using R = typename num<T>::real;
  T const one(1), big = num<T>::make(std::ldexp(R(1), 20), R(0)), small = num<T>::make(std::ldexp(R(1), -20), R(0));
  // (a factor that is zero by itself gives zero, as does its product)
  bool const z = num<T>::zero(v);
  Ex<T> const X(one, m), O(one);
  auto st = [&](Ex<T> const& e, T const& w, char const* route) {
    stored(e, m, w, route);
    cx.trans();
  };
  st(Ex<T>(v, m), v, "expression(v, M)");
  st(v * X, v, "v * M");
  st(X * v, v, "M * v");
  Ex<T> e(X);
  e *= v;
  st(e, v, "M *= v");
  st(X * Ex<T>(v), v, "M * expression(v)");
  st(Ex<T>(v) * X, v, "expression(v) * M");
  e = X;
  e *= Ex<T>(v);
  st(e, v, "M *= expression(v)");
  st(-(Ex<T>(v, m)), T(-v), "-(v M)");
  st(Ex<T>() + Ex<T>(v, m), v, "0 + v M");
  st(Ex<T>(v, m) + Ex<T>(), v, "v M + 0");
  st(Ex<T>() - Ex<T>(v, m), T(-v), "0 - v M");
  e = Ex<T>();
  e += Ex<T>(v, m);
  st(e, v, "0 += v M");
  e = Ex<T>();
  e -= Ex<T>(v, m);
  st(e, T(-v), "0 -= v M");
  st(transform(X, [&](monomial<int> const&, T const&) { return v; }), v, "transform");
  if(num<std::decay_t<decltype(small)>>::zero(small) == false) {
    T const up = v * big;
    if(!num<T>::zero(up)) {
      st(Ex<T>(up, m) * small, T(up * small), "(big v M) * small");
      st(small * Ex<T>(up, m), T(small * up), "small * (big v M)");
      e = Ex<T>(up, m);
      e *= small;
      st(e, T(up * small), "big v M *= small");
      st(Ex<T>(up, m) * Ex<T>(small), T(up * small), "(big v M) * expression(small)");
      if(m == monomial<int>{}) {
        Ex<T> k = Ex<T>(up) * Ex<T>(small);
        st(k, T(up * small), "product of constants");
      }
    }
  }
  // residues of sums and differences
  R const s = std::max(std::abs(v) * 8, R(tol_eps) * std::numeric_limits<R>::epsilon() * 1024);
  for(T a : {num<T>::make(s, R(0)), num<T>::make(-s, s), num<T>::make(R(0), -s)}) {
    if(num<T>::zero(a)) continue;
    T const b = v - a, r = b + a;
    if(num<T>::zero(b)) continue;
    st(Ex<T>(b, m) + Ex<T>(a, m), r, "b M + a M");
    st(Ex<T>(b, m) - Ex<T>(T(-a), m), T(b - T(-a)), "b M - (-a) M");
    e = Ex<T>(b, m);
    e += Ex<T>(a, m);
    st(e, r, "b M += a M");
    e = Ex<T>(b, m);
    e -= Ex<T>(T(-a), m);
    st(e, r, "b M -= (-a) M");
    if(m == monomial<int>{}) {
      st(Ex<T>(b) + a, r, "expression(b) + a");
      st(a + Ex<T>(b), r, "a + expression(b)");
      st(Ex<T>(b) - T(-a), r, "expression(b) - (-a)");
      st(a - Ex<T>(T(-b)), r, "a - expression(-b)");
      e = Ex<T>(b);
      e += a;
      st(e, r, "expression(b) += a");
      e = Ex<T>(b);
      e -= T(-a);
      st(e, r, "expression(b) -= (-a)");
    } else {
      // like terms meet in a product: M (b + a) from M b + M a
      st(X * Ex<T>(b) + X * Ex<T>(a), r, "M b + M a");
    }
  }
  if(m == monomial<int>{}) {
    st(Ex<T>(v), v, "expression(v)");
    st(Ex<T>() + v, v, "0 + v");
    st(v + Ex<T>(), v, "v + 0");
    st(Ex<T>() - v, T(-v), "0 - v");
    st(v - Ex<T>(), v, "v - 0");
    e = Ex<T>();
    e += v;
    st(e, v, "0 += v");
    e = Ex<T>();
    e -= v;
    st(e, T(-v), "0 -= v");
    st(conj(Ex<T>(v)), scalar_traits<T>::conj(v), "conj(v)");
  }
  cx.validated();
  cx.state(mc::hcomb(mc::hcomb(mc::hdbl(double(std::real(v))), mc::hdbl(double(std::imag(v)))), mc::hcomb(sizeof(T), z)));
}
template <typename T> static void boundary(mc::Ctx& cx, char const* name) {
  using R = typename num<T>::real;
  std::vector<R> vals{0};
  R const t = R(tol_eps) * std::numeric_limits<R>::epsilon();
  for(R f : {R(0.01), R(0.5), R(0.98), R(1), R(1.02), R(2), R(100)})
    for(int s = -1; s <= 1; s += 2)
      vals.push_back(s * f * t);
  vals.push_back(1);
  cx.bound(mc::str(name, ", tolerance of ", tol_eps, " epsilons: coefficients 0, 1, +-f * tolerance with f from 0.01 to 100 (either component of complex numbers), in front of 5 monomials, on 25-45 routes through construction, sums, products and residues of cancellations"));
  for(auto re : vals)
    for(auto im : num<T>::cplx ? vals : std::vector<R>{0})
      for(std::size_t k = 0; k < monos().size(); ++k)
        cx.test([&] { return mc::str(name, ": ", re / t, " + i ", im / t, " tolerances in front of monomial ", k); }, [&] { routes<T>(cx, monos()[k], num<T>::make(re, im)); });
}
FAMILY(tolerance) {
  boundary<float>(cx, "float");
  boundary<double>(cx, "double");
  boundary<long double>(cx, "long double");
  boundary<std::complex<float>>(cx, "complex<float>");
  boundary<std::complex<double>>(cx, "complex<double>");
  boundary<std::complex<long double>>(cx, "complex<long double>");
}
// Values that vanish (or stop being negligible) when they change their type
template <typename T, typename S> static void convert(mc::Ctx& cx, char const* name) {
  std::vector<long double> vals{0, 1, -2, 0.3L, -0.5L, 0.9L, -1.7L};
  for(int k = 3; k <= 21; ++k)
    vals.push_back(std::pow(10.L, -k) * (k % 2 ? 1 : -1));
  cx.bound(mc::str(name, ": constants, monomials and expressions with coefficients +-10^-3..10^-21 and 7 others, by 10 converting operations"));
  for(auto x : vals)
    for(std::size_t k = 0; k < monos().size(); ++k)
      cx.test([&] { return mc::str(name, ": ", x, " in front of monomial ", k); },
              [&] {
                S const v = static_cast<S>(static_cast<typename num<S>::real>(x));
                T const w = static_cast<T>(v);
                auto const& m = monos()[k];
                // 'v' can be negligible in its own type and not in the other one: both outcomes are fine then
                auto st = [&](Ex<T> const& e, char const* route, T const& val) {
                  cx.trans();
                  if(num<S>::zero(v) && !num<T>::zero(val) && e.size() == 0) return;
                  stored(e, m, val, route);
                };
                st(Ex<T>(Ex<S>(v, m)), "expression(expression)", w);
                Ex<T> e(T(5), m);
                e = Ex<S>(v, m);
                st(e, "= expression", w);
                if(k == 0) st(Ex<T>(v), "expression(v)", w);
                if constexpr(!(num<T>::cplx && num<S>::cplx)) { // no mixed arithmetic of complex numbers
                  st(Ex<T>(v, m), "expression(v, M)", w);
                  T u(0);
                  u += v;
                  e = Ex<T>();
                  e += Ex<S>(v, m);
                  st(e, "+= expression", u);
                  u = T(0);
                  u -= v;
                  e = Ex<T>();
                  e -= Ex<S>(v, m);
                  st(e, "-= expression", u);
                  u = T(1);
                  u *= v;
                  e = Ex<T>(T(1), m);
                  e *= v;
                  st(e, "*= v", u);
                  if(k == 0) {
                    u = T(0);
                    u += v;
                    e = Ex<T>();
                    e += v;
                    st(e, "+= v", u);
                    u = T(0);
                    u -= v;
                    e = Ex<T>();
                    e -= v;
                    st(e, "-= v", u);
                  }
                }
                cx.validated();
                cx.state(mc::hcomb(mc::hstr(name), mc::hcomb(mc::hdbl(double(x)), k)));
              });
}
FAMILY(conversion) {
  convert<int, float>(cx, "float to int");
  convert<int, double>(cx, "double to int");
  convert<long, long double>(cx, "long double to long");
  convert<float, double>(cx, "double to float");
  convert<float, long double>(cx, "long double to float");
  convert<double, long double>(cx, "long double to double");
  convert<double, float>(cx, "float to double");
  convert<long double, float>(cx, "float to long double");
  convert<long double, double>(cx, "double to long double");
  convert<float, int>(cx, "int to float");
  convert<double, long>(cx, "long to double");
  convert<std::complex<float>, float>(cx, "float to complex<float>");
  convert<std::complex<double>, double>(cx, "double to complex<double>");
  convert<std::complex<double>, std::complex<float>>(cx, "complex<float> to complex<double>");
  convert<std::complex<float>, std::complex<double>>(cx, "complex<double> to complex<float>");
  convert<std::complex<double>, std::complex<long double>>(cx, "complex<long double> to complex<double>");
}
