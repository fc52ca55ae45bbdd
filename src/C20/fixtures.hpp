// Owners of storage for every supported state vector type, with guard cells
#pragma once
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
using namespace refop;

template <typename A> static A guard() { return A(1234567); }
constexpr int N = 4; // size of all vectors

template <typename A_> struct StdVec {
  using A = A_;
  static constexpr bool sparse = false;
  static char const* name() { return "std::vector"; }
  std::vector<A> v = std::vector<A>(N, A(0));
  template <typename F> void with(F&& f) { f(v); }
  template <typename F> void with_const(F&& f) const { f(v); }
  void check() const {}
};
template <typename A_> struct Sparse {
  using A = A_;
  static constexpr bool sparse = true;
  static char const* name() { return "sparse_state_vector"; }
  sparse_state_vector<A> v{N};
  template <typename F> void with(F&& f) { f(v); }
  template <typename F> void with_const(F&& f) const { f(v); }
  void check() const { MC_CHECK(v.size() == N, "size of the sparse vector"); }
};
template <typename A_> struct EigDyn {
  using A = A_;
  static constexpr bool sparse = false;
  static char const* name() { return "Eigen vector"; }
  Eigen::Matrix<A, Eigen::Dynamic, 1> v = Eigen::Matrix<A, Eigen::Dynamic, 1>::Zero(N);
  template <typename F> void with(F&& f) { f(v); }
  template <typename F> void with_const(F&& f) const { f(v); }
  void check() const { MC_CHECK(v.size() == N, "size"); }
};
template <typename A_> struct EigFix {
  using A = A_;
  static constexpr bool sparse = false;
  static char const* name() { return "Eigen fixed-size vector"; }
  Eigen::Matrix<A, N, 1> v = Eigen::Matrix<A, N, 1>::Zero();
  template <typename F> void with(F&& f) { f(v); }
  template <typename F> void with_const(F&& f) const { f(v); }
  void check() const {}
};
template <typename A_, int Kind> struct EigSeg {
  using A = A_;
  static constexpr bool sparse = false;
  static char const* name() { return Kind == 0 ? "segment(i,n)" : Kind == 1 ? "head(n)" : "tail(n)"; }
  Eigen::Matrix<A, Eigen::Dynamic, 1> v;
  EigSeg() : v(Eigen::Matrix<A, Eigen::Dynamic, 1>::Constant(N + 3, guard<A>())) {
    for(int i = 0; i < N; ++i)
      v(off() + i) = A(0);
  }
  static int off() { return Kind == 0 ? 2 : Kind == 1 ? 0 : Kind == 2 ? 3 : 1; }
  template <typename V> static auto seg(V& v, std::integral_constant<int, 0>) { return v.segment(2, N); }
  template <typename V> static auto seg(V& v, std::integral_constant<int, 1>) { return v.head(N); }
  template <typename V> static auto seg(V& v, std::integral_constant<int, 2>) { return v.tail(N); }
  template <typename F> void with(F&& f) {
    auto s = seg(v, std::integral_constant<int, Kind>());
    f(s);
  }
  template <typename F> void with_const(F&& f) const {
    auto const s = seg(v, std::integral_constant<int, Kind>());
    f(s);
  }
  void check() const {
    for(int i = 0; i < N + 3; ++i)
      if(i < off() || i >= off() + N) MC_CHECK(v(i) == guard<A>(), "element ", i, " outside of the segment was written");
  }
};
// Parts of matrices: kind 0 col(), 1 block(i,j,n,1), 2 block<n,1>(i,j), 3 row-major col(), 4 row-major block, 5 middleRows of a column
template <typename A_, int Kind> struct EigBlock {
  using A = A_;
  static constexpr bool sparse = false;
  static char const* name() { return Kind == 0 ? "matrix column" : Kind == 1 ? "block(i,j,n,1)" : Kind == 2 ? "block<n,1>(i,j)" : Kind == 3 ? "row-major column" : "row-major block(i,j,n,1)"; }
  using M = Eigen::Matrix<A, Eigen::Dynamic, Eigen::Dynamic, (Kind >= 3 ? Eigen::RowMajor : Eigen::ColMajor)>;
  M m;
  static int rows() { return Kind == 0 || Kind == 3 ? N : N + 2; }
  static int off() { return Kind == 0 || Kind == 3 ? 0 : 1; }
  EigBlock() : m(M::Constant(rows(), 3, guard<A>())) {
    for(int i = 0; i < N; ++i)
      m(off() + i, 1) = A(0);
  }
  template <typename T> static auto blk(T& m, std::integral_constant<int, 0>) { return m.col(1); }
  template <typename T> static auto blk(T& m, std::integral_constant<int, 1>) { return m.block(1, 1, N, 1); }
  template <typename T> static auto blk(T& m, std::integral_constant<int, 2>) { return m.template block<N, 1>(1, 1); }
  template <typename T> static auto blk(T& m, std::integral_constant<int, 3>) { return m.col(1); }
  template <typename T> static auto blk(T& m, std::integral_constant<int, 4>) { return m.block(1, 1, N, 1); }
  template <typename F> void with(F&& f) {
    auto s = blk(m, std::integral_constant<int, Kind>());
    f(s);
  }
  template <typename F> void with_const(F&& f) const {
    auto const s = blk(m, std::integral_constant<int, Kind>());
    f(s);
  }
  void check() const {
    for(int i = 0; i < rows(); ++i)
      for(int j = 0; j < 3; ++j)
        if(j != 1 || i < off() || i >= off() + N) MC_CHECK(m(i, j) == guard<A>(), "element (", i, ",", j, ") outside of the block was written");
  }
};
template <typename A_, int Fixed> struct EigMap {
  using A = A_;
  static constexpr bool sparse = false;
  static char const* name() { return Fixed ? "Map<fixed vector>" : "Map<vector>"; }
  std::vector<A> mem;
  EigMap() : mem(N + 4, guard<A>()) {
    for(int i = 0; i < N; ++i)
      mem[2 + i] = A(0);
  }
  using V = Eigen::Matrix<A, Fixed ? N : Eigen::Dynamic, 1>;
  template <typename F> void with(F&& f) {
    Eigen::Map<V> m(mem.data() + 2, N);
    f(m);
  }
  template <typename F> void with_const(F&& f) const {
    Eigen::Map<V> const m(const_cast<A*>(mem.data()) + 2, N);
    f(m);
  }
  void check() const {
    for(int i = 0; i < N + 4; ++i)
      if(i < 2 || i >= 2 + N) MC_CHECK(mem[i] == guard<A>(), "memory outside of the map was written");
  }
};

// Runs G<Fixture>() for every fixture type with amplitude type A
template <typename A, template <typename> class G, typename... X> static void every_type(X&... x) {
  G<StdVec<A>>::run(x...);
  G<Sparse<A>>::run(x...);
  G<EigDyn<A>>::run(x...);
  G<EigFix<A>>::run(x...);
  G<EigSeg<A, 0>>::run(x...);
  G<EigSeg<A, 1>>::run(x...);
  G<EigSeg<A, 2>>::run(x...);
  G<EigBlock<A, 0>>::run(x...);
  G<EigBlock<A, 1>>::run(x...);
  G<EigBlock<A, 2>>::run(x...);
  G<EigBlock<A, 3>>::run(x...);
  G<EigBlock<A, 4>>::run(x...);
  G<EigMap<A, 0>>::run(x...);
  G<EigMap<A, 1>>::run(x...);
}
