// Histories of operations on one state vector, shared by the C20 harnesses
#pragma once
#include "fixtures.hpp"

// Amplitude values as used by the histories; index 3 is a value of another type
static bool small_and_large = false;
template <typename A> struct Vals;
template <> struct Vals<double> {
  static double v(int k) {
    if(small_and_large) return k == 0 ? 4.3e-13 : k == 1 ? -4.3e-13 : 4.7e11;
    return k == 0 ? 1 : k == 1 ? -1 : 0.5;
  }
  using Other = int;
  static int other() { return 2; }
};
template <> struct Vals<cd> {
  static cd v(int k) {
    if(small_and_large) return k == 0 ? cd(1, 4.3e-13) : k == 1 ? cd(-1, 0) : cd(4.3e-13, 4.7e11);
    return k == 0 ? cd(1, 1) : k == 1 ? cd(-1, -1) : cd(0, -2);
  }
  using Other = double;
  static double other() { return 2.5; }
};
template <> struct Vals<int> {
  static int v(int k) { return k == 0 ? 1 : k == 1 ? -1 : 3; }
  using Other = long;
  static long other() { return 2; }
};
template <typename A> struct Model {
  std::vector<A> a = std::vector<A>(N, A(0));
};
template <typename SV, typename A> static void observe(SV const& sv, std::vector<A> const& a, bool sparse, std::string const& w) {
  for(int i = 0; i < N; ++i)
    MC_CHECK(A(get_element(sv, i)) == a[i], w, ": element ", i, " = ", get_element(sv, i), " expected ", a[i]);
  std::map<uint64_t, A> seen;
  int64_t last = -1;
  foreach(sv, [&](sv_index_type n, A const& x) {
    MC_CHECK(seen.emplace(n, x).second, w, ": foreach() visited ", n, " twice");
    MC_CHECK(sparse || int64_t(n) > last, w, ": foreach() out of order");
    last = int64_t(n);
  });
  std::map<uint64_t, A> ref;
  for(int i = 0; i < N; ++i)
    if(a[i] != A(0)) ref[i] = a[i];
  MC_CHECK(seen == ref, w, ": foreach() visited ", seen.size(), " elements, expected ", ref.size());
  using ET = element_type_t<remove_cvref_t<SV>>;
  static_assert(std::is_same<ET, A>::value, "element type");
  static_assert(std::is_same<element_type_t<SV>, A>::value || !std::is_const<SV>::value, "element type of const");
}
template <typename SV, typename A> static void observe_sparse(SV const&, std::vector<A> const&, std::string const&) {}
template <typename A> static void observe_sparse(sparse_state_vector<A> const& sv, std::vector<A> const& a, std::string const& w) {
  std::size_t nz = 0;
  for(auto const& x : a)
    nz += x != A(0);
  MC_CHECK(sv.n_nonzeros() == nz, w, ": n_nonzeros() = ", sv.n_nonzeros(), " expected ", nz);
}
// sparse-only operations; no-ops elsewhere
template <typename SV, typename A> static void sparse_op(SV&, int, std::vector<A>&, bool& applied) { applied = false; }
template <typename A> static void sparse_op(sparse_state_vector<A>& sv, int k, std::vector<A>& a, bool& applied) {
  applied = true;
  switch(k) {
  case 0:
    sv[2] = Vals<A>::v(2);
    a[2] = Vals<A>::v(2);
    break;
  case 1:
    sv[0] = A(7);
    a[0] = A(7);
    break;
  case 2: sv.prune(); break;
  case 3:
    sv.prune([](A const& x) { return std::abs(x) > 1.6; });
    for(auto& x : a)
      if(std::abs(x) > 1.6) x = A(0);
    break;
  case 4: { // stored zero, removed by pruning
    sv[3] = A(0);
    sv.prune();
    a[3] = A(0);
  } break;
  default: {
    sparse_state_vector<A> c(sv);
    sparse_state_vector<A> m(std::move(c));
    sv = m;
    c = sv;
    update_add_element(c, 0, A(5)); // the copy is independent
    update_add_element(m, 1, A(5));
  }
  }
}
// 0..11: add v(k) to element n (k<3, n<4); 12..13: add a value of another type; 14: set_zeros; 15: add own element; 16: const reading; 17..22 sparse
constexpr int n_ops = 17, n_sparse_ops = 6;
static std::string op_name(int o) {
  if(o < 12) return mc::str("add(", o / 3, ",v", o % 3, ")");
  if(o < 14) return mc::str("add_other(", o - 12, ")");
  if(o == 14) return "zero";
  if(o == 15) return "add_own";
  if(o == 16) return "zeros_like";
  return mc::str("sparse_op", o - 17);
}
template <typename F> static void do_op(F& fx, std::vector<typename F::A>& a, int o) {
  using A = typename F::A;
  fx.with([&](auto& sv) {
    if(o < 12) {
      int n = o / 3;
      A const v = Vals<A>::v(o % 3);
      if(o % 2) update_add_element(sv, n, v);
      else
        update_add_element(sv, n, A(v));
      a[n] += v;
    } else if(o < 14) {
      int n = 1 + o - 12;
      auto v = Vals<A>::other();
      update_add_element(sv, n, v);
      a[n] += v;
    } else if(o == 14) {
      set_zeros(sv);
      std::fill(a.begin(), a.end(), A(0));
    } else if(o == 15) {
      A own = get_element(sv, 1);
      update_add_element(sv, 1, own);
      update_add_element(sv, 2, -own);
      a[2] -= a[1];
      a[1] += a[1];
    } else if(o == 16) {
      auto z = zeros_like(sv);
      MC_CHECK(int(z.size()) == N, "zeros_like(): size ", z.size());
      for(int i = 0; i < N; ++i)
        MC_CHECK(A(get_element(z, i)) == A(0), "zeros_like(): element ", i);
      update_add_element(z, 0, A(1));
    } else {
      bool ap;
      sparse_op(sv, o - 17, a, ap);
    }
  });
}
template <typename F> struct Histories {
  static void run(mc::Ctx& cx, int& L) {
    using A = typename F::A;
    int k = n_ops + (F::sparse ? n_sparse_ops : 0);
    mc::words(k, 1, L, [&](std::vector<int> const& w) {
      cx.test(
          [&] {
            std::string s = mc::str(F::name(), ":");
            for(int o : w)
              s += " " + op_name(o);
            return s;
          },
          [&] {
            F fx;
            std::vector<A> a(N, A(0));
            for(std::size_t i = 0; i < w.size(); ++i) {
              do_op(fx, a, w[i]);
              std::string at = mc::str(F::name(), " after operation ", i);
              fx.with([&](auto& sv) {
                observe(sv, a, F::sparse, at);
                observe_sparse(sv, a, at);
              });
              fx.with_const([&](auto const& sv) { observe(sv, a, F::sparse, at + " (const)"); });
              fx.check();
              cx.trans();
            }
            cx.validated();
            uint64_t h = mc::hstr(F::name());
            for(auto const& x : a)
              h = mc::hcomb(h, mc::hcomb(mc::hdbl(std::real(cd(x))), mc::hdbl(std::imag(cd(x)))));
            cx.state(h);
          });
    });
  }
};
