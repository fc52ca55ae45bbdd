// Amplitudes around the documented zero tolerance (100 epsilons of the number type) seen
// through a view: foreach() reports those that do not count as zero, with their exact values;
// element access, additions and applications of operators keep every digit.
#pragma once
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"

namespace viewtol {
using namespace refop;

template <typename T> struct num {
  using real = T;
  static bool zero(T x) { return std::abs(x) < T(100) * std::numeric_limits<T>::epsilon(); }
  static T make(T re, T) { return re; }
  static constexpr bool cplx = false;
};
template <typename T> struct num<std::complex<T>> {
  using real = T;
  static bool zero(std::complex<T> x) { return num<T>::zero(x.real()) && num<T>::zero(x.imag()); }
  static std::complex<T> make(T re, T im) { return {re, im}; }
  static constexpr bool cplx = true;
};
// A needs every digit of its type
template <typename A> static A fine(int k) {
  using R = typename num<A>::real;
  R x = R(1) + std::ldexp(R(1), -std::numeric_limits<R>::digits + 6);
  return num<A>::make(k ? -3 * x : x, k ? x : -2 * x);
}
template <typename A> static std::vector<A> values() {
  using R = typename num<A>::real;
  R const t = R(100) * std::numeric_limits<R>::epsilon();
  std::vector<A> v{A(0), fine<A>(0), fine<A>(1)};
  for(R f : {R(0.5), R(0.98), R(1), R(-1), R(1.02), R(-50)}) {
    v.push_back(num<A>::make(f * t, 0));
    if(num<A>::cplx) v.push_back(num<A>::make(R(0.7) * t, f * t));
  }
  return v;
}
// mk(vector, use) calls use(view, constant view); list[i] is the basis state stored at position i
template <typename A, typename V, typename Mk> static void run_on(mc::Ctx& cx, std::string const& what, std::vector<sv_index_type> const& list, Mk&& mk) {
  auto vals = values<A>();
  std::vector<std::size_t> pos{0, list.size() / 2, list.size() - 1};
  bool const sparse = std::is_same<V, sparse_state_vector<A>>::value;
  mc::tuples(std::vector<int>(2, int(vals.size())), [&](std::vector<int> const& k) {
    cx.test([&] { return mc::str(what, " values ", k[0], ",", k[1]); },
            [&] {
              for(std::size_t p : pos)
                for(std::size_t q : pos) {
                  std::vector<A> a(list.size(), A(0));
                  V sv = V(list.size());
                  set_zeros(sv);
                  a[p] = vals[k[0]];
                  a[q] += vals[k[1]];
                  mk(sv, [&](auto& view, auto const& cview) {
                    update_add_element(view, list[p], vals[k[0]]);
                    update_add_element(view, list[q], vals[k[1]]);
                    auto look = [&](auto const& v) {
                      std::map<sv_index_type, A> seen, ref;
                      for(std::size_t i = 0; i < list.size(); ++i) {
                        // sparse vectors do not keep what counts as zero; intermediate results included
                        A const g = get_element(v, list[i]);
                        if(sparse && p == q && num<A>::zero(vals[k[0]])) a[p] = num<A>::zero(vals[k[1]]) ? A(0) : vals[k[1]];
                        A const e = sparse && num<A>::zero(a[i]) ? A(0) : a[i];
                        MC_CHECK(g == e, what, ": amplitude of ", list[i], " = ", g, " expected ", e);
                        if(!num<A>::zero(a[i])) ref[list[i]] = a[i];
                      }
                      foreach(v, [&](sv_index_type n, A const& x) { MC_CHECK(seen.emplace(n, x).second, what, ": state ", n, " reported twice"); });
                      MC_CHECK(seen == ref, what, ": foreach() reported ", seen.size(), " amplitudes, expected ", ref.size());
                    };
                    look(view);
                    look(cview);
                  });
                  cx.trans(4);
                  if(p == q && p == pos[0]) cx.state(mc::hcomb(mc::hstr(what), mc::hcomb(k[0], k[1])));
                }
              cx.validated();
            });
  });
}
// mk(vector, use) must be generic in the vector type
template <typename Mk> static void run(mc::Ctx& cx, std::string const& what, std::vector<sv_index_type> const& list, Mk&& mk) {
  cx.bound(mc::str(what, ": pairs of amplitudes 0, +-f * tolerance (f from 0.5 to 50, either component) and two that need every digit, at 3 x 3 positions, through views of std, sparse and Eigen vectors of float, double, long double and complex numbers"));
  run_on<float, std::vector<float>>(cx, what + " vector<float>", list, mk);
  run_on<double, std::vector<double>>(cx, what + " vector<double>", list, mk);
  run_on<long double, std::vector<long double>>(cx, what + " vector<long double>", list, mk);
  run_on<cd, std::vector<cd>>(cx, what + " vector<complex>", list, mk);
  run_on<std::complex<float>, std::vector<std::complex<float>>>(cx, what + " vector<complex<float>>", list, mk);
  run_on<float, sparse_state_vector<float>>(cx, what + " sparse float", list, mk);
  run_on<long double, sparse_state_vector<long double>>(cx, what + " sparse long double", list, mk);
  run_on<cd, sparse_state_vector<cd>>(cx, what + " sparse complex", list, mk);
  run_on<double, Eigen::Matrix<double, Eigen::Dynamic, 1>>(cx, what + " Eigen double", list, mk);
  run_on<std::complex<long double>, Eigen::Matrix<std::complex<long double>, Eigen::Dynamic, 1>>(cx, what + " Eigen complex<long double>", list, mk);
}
} // namespace viewtol
