// Shared by the C16 harnesses
#pragma once
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
#include "uservec.hpp"
using namespace refop;

inline Op F(int d, int i) { return {0, d, 2, i}; }
inline Op B(int d, int i) { return {1, d, 0, i}; }
inline Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }

struct Case {
  std::vector<ES> set;
  std::vector<Sum> ops;
};
inline Case const& space(int k) {
  static std::vector<Case> cs = [] {
    std::vector<Case> v;
    v.push_back({{{0, 2, 0}, {0, 2, 1}},
                 {{},
                  {{1, {}}},
                  {{1, {F(1, 0), F(0, 1)}}, {1, {F(1, 1), F(0, 0)}}},
                  {{2, {F(1, 0)}}, {-1, {F(0, 1)}}, {3, {}}},
                  {{1, {F(1, 0), F(0, 0)}}, {-1, {F(1, 1), F(0, 1)}}, {4, {F(1, 0), F(1, 1), F(0, 1), F(0, 0)}}},
                  {{1, {F(0, 0)}}, {1, {F(1, 0)}}}}});
    v.push_back({{{1, 3, 0}}, {{{1, {B(1, 0)}}}, {{1, {B(0, 0)}}, {2, {B(1, 0)}}}, {{1, {B(1, 0), B(0, 0)}}, {-2, {}}}, {{1, {B(1, 0), B(1, 0)}}}}});
    v.push_back({{{2, 3, 0}}, {{{1, {S(0, 3, 0)}}, {1, {S(1, 3, 0)}}}, {{2, {S(2, 3, 0)}}, {1, {S(2, 3, 0), S(2, 3, 0)}}}, {{1, {S(0, 3, 0), S(0, 3, 0)}}}}});
    v.push_back({{{0, 2, 0}, {2, 2, 0}}, {{{1, {F(1, 0), S(1, 2, 0)}}, {1, {F(0, 0), S(0, 2, 0)}}}, {{1, {S(2, 2, 0)}}, {2, {F(1, 0), F(0, 0)}}}}});
    return v;
  }();
  return cs[k];
}
template <typename T> static cd to_cd(T const& t) { return cd(t); }

// vector adapters: make a vector of given size with given amplitudes
template <typename V, typename A> struct mk {
  static V make(std::vector<A> const& a) { return V(a.begin(), a.end()); }
};
template <typename A> struct mk<sparse_state_vector<A>, A> {
  static sparse_state_vector<A> make(std::vector<A> const& a) {
    sparse_state_vector<A> v(a.size());
    for(std::size_t i = 0; i < a.size(); ++i)
      if(a[i] != A(0)) v[i] = a[i];
    return v;
  }
};
template <typename A> using EV = Eigen::Matrix<A, Eigen::Dynamic, 1>;
template <typename A> struct mk<EV<A>, A> {
  static EV<A> make(std::vector<A> const& a) {
    EV<A> v(a.size());
    for(std::size_t i = 0; i < a.size(); ++i)
      v(i) = a[i];
    return v;
  }
};
template <typename V, typename A> static std::vector<cd> read(V const& v, std::size_t n) {
  std::vector<cd> r;
  for(std::size_t i = 0; i < n; ++i)
    r.push_back(cd(get_element(v, i)));
  return r;
}
// accuracy of the number types in use
inline double& accuracy_() {
  static thread_local double tol = 1e-10;
  return tol;
}
struct Accuracy {
  double old = accuracy_();
  explicit Accuracy(double tol) { accuracy_() = tol; }
  ~Accuracy() { accuracy_() = old; }
};
inline void same_vec(std::vector<cd> const& a, std::vector<cd> const& b, std::string const& what) {
  for(std::size_t i = 0; i < b.size(); ++i)
    MC_CHECK(mc::close(a[i], b[i], accuracy_()), what, ": amplitude ", i, " is ", a[i], " expected ", b[i]);
}
template <typename Sc> static expression<Sc, int> make_sum(Sum const& s, Sc factor) {
  expression<Sc, int> e;
  for(auto const& t : s)
    e += Sc(factor * scalar_traits<Sc>::make_const(int(t.first.real()))) * to_expr<Sc>(t.second);
  return e;
}
inline std::vector<cd> ref_apply(Layout const& l, Sum const& s, cd factor, std::vector<cd> const& in) {
  std::vector<cd> out(in.size(), 0);
  for(std::size_t i = 0; i < in.size(); ++i) {
    if(in[i] == cd(0)) continue;
    for(auto const& p : column(l, s, i))
      out[p.first] += factor * p.second * in[i];
  }
  return out;
}

// Src and Dst vector types, operator scalar Sc, amplitude types A (src) and D (dst)
template <typename Src, typename A, typename Dst, typename D, typename Op_> static void in_place(Op_ const& op, std::vector<A> const& a, std::vector<cd> const& ref, char const* what) {
  std::vector<cd> ac;
  for(auto const& x : a)
    ac.push_back(cd(x));
  auto src = mk<Src, A>::make(a);
  Src const csrc = mk<Src, A>::make(a);
  for(int dirt = 0; dirt < 3; ++dirt) {
    std::vector<D> d(a.size());
    for(std::size_t i = 0; i < a.size(); ++i)
      d[i] = dirt == 0 ? D(0) : dirt == 1 ? D(5) : D(int(i) * 3 - 4);
    auto dst = mk<Dst, D>::make(d);
    if(dirt == 1) op(csrc, dst);
    else
      op(src, dst);
    same_vec(read<Dst, D>(dst, a.size()), ref, mc::str(what, " in place, dirt ", dirt));
    // a second application into the same destination
    op(src, dst);
    same_vec(read<Dst, D>(dst, a.size()), ref, mc::str(what, " in place again, dirt ", dirt));
    same_vec(read<Src, A>(src, a.size()), ac, mc::str(what, " source after in-place application"));
  }
}
template <typename V, typename A, typename Op_> static void by_value(Op_ const& op, std::vector<A> const& a, std::vector<cd> const& ref, char const* what) {
  std::vector<cd> ac;
  for(auto const& x : a)
    ac.push_back(cd(x));
  auto src = mk<V, A>::make(a);
  V r1 = op(src);
  V r2 = op * src;
  same_vec(read<V, A>(r1, a.size()), ref, mc::str(what, " call"));
  same_vec(read<V, A>(r2, a.size()), ref, mc::str(what, " product"));
  same_vec(read<V, A>(src, a.size()), ac, mc::str(what, " source"));
  V const csrc = mk<V, A>::make(a);
  same_vec(read<V, A>(op(csrc), a.size()), ref, mc::str(what, " call on const"));
  V acc = mk<V, A>::make(a);
  acc = op(acc);
  same_vec(read<V, A>(acc, a.size()), ref, mc::str(what, " assigned to its argument"));
}
template <typename Sc, typename A> static void all_forms(mc::Ctx& cx, HS const& hs, Layout const& l, Sum const& s, Sc factor, std::vector<A> const& a) {
  auto e = make_sum<Sc>(s, factor);
  auto op = make_loperator(e, hs);
  std::vector<cd> ac;
  for(auto const& x : a)
    ac.push_back(cd(x));
  auto ref = ref_apply(l, s, cd(factor), ac);
  using V = std::vector<A>;
  using SP = sparse_state_vector<A>;
  in_place<V, A, V, A>(op, a, ref, "vector->vector");
  in_place<SP, A, SP, A>(op, a, ref, "sparse->sparse");
  in_place<EV<A>, A, EV<A>, A>(op, a, ref, "Eigen->Eigen");
  in_place<V, A, SP, A>(op, a, ref, "vector->sparse");
  in_place<SP, A, EV<A>, A>(op, a, ref, "sparse->Eigen");
  in_place<EV<A>, A, V, A>(op, a, ref, "Eigen->vector");
  by_value<V, A>(op, a, ref, "vector");
  by_value<SP, A>(op, a, ref, "sparse");
  by_value<EV<A>, A>(op, a, ref, "Eigen");
  cx.trans(50);
  cx.validated();
  uint64_t h = 1;
  for(auto const& x : ref)
    h = mc::hcomb(h, mc::hcomb(mc::hdbl(x.real()), mc::hdbl(x.imag())));
  cx.state(h);
}
