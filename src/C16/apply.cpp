// C16: applying an operator is linear, overwrites its output, leaves the input alone
#include "ops.hpp"

template <typename A> static A grid(int k);
template <> double grid<double>(int k) { return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -2.5 : 1e-3; }
template <> int grid<int>(int k) { return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -3 : 7; }
template <> cd grid<cd>(int k) { return k == 0 ? cd(0) : k == 1 ? cd(1, 2) : k == 2 ? cd(0, -1.5) : cd(-2); }

template <typename Sc, typename A> static void linear(mc::Ctx& cx, int K, std::vector<Sc> const& factors, bool spins_ok) {
  cx.bound(mc::str("4 spaces, every operator of the pool times every factor, all states with amplitudes from ", K, " values, 6 source/destination type pairs, 3 dirty destinations, call, product and in-place forms"));
  for(int sp = 0; sp < 4; ++sp) {
    auto const& c = space(sp);
    Layout l = layout(c.set);
    if(!spins_ok && sp != 0) continue;
    HS hs = build(c.set);
    std::size_t n = get_vec_size(hs);
    auto valid = states(l);
    for(auto const& s : c.ops)
      for(auto const& f : factors)
        mc::tuples(std::vector<int>(valid.size(), K), [&](std::vector<int> const& t) {
          cx.test([&] { return set_str(c.set) + " " + mc::str(f) + " * " + sum_str(s) + " on " + mc::vec_str(t); },
                  [&] {
                    std::vector<A> a(n, A(0));
                    for(std::size_t i = 0; i < valid.size(); ++i)
                      a[valid[i]] = grid<A>(t[i]);
                    all_forms<Sc, A>(cx, hs, l, s, f, a);
                  });
        });
  }
}
FAMILY(real_on_real) { linear<double, double>(cx, cx.pick(3, 4), {1.0, -0.5}, true); }
FAMILY(real_on_complex) { linear<double, cd>(cx, cx.pick(3, 4), {2.0}, true); }
FAMILY(complex_on_complex) { linear<cd, cd>(cx, cx.pick(3, 4), {cd(0, 1), cd(1.5, -2)}, true); }
FAMILY(int_on_int) { linear<int, int>(cx, cx.pick(3, 4), {1, -2}, false); }
FAMILY(int_on_double) { linear<int, double>(cx, cx.pick(3, 4), {3}, false); }

// Mixed amplitude types: real source, complex destination
FAMILY(real_source_complex_destination) {
  cx.bound("real or complex operator, real source, complex destination, all container pairs, all grid states of the 4 spaces");
  for(int sp = 0; sp < 4; ++sp) {
    auto const& c = space(sp);
    Layout l = layout(c.set);
    HS hs = build(c.set);
    auto valid = states(l);
    std::size_t n = get_vec_size(hs);
    for(auto const& s : c.ops)
      mc::tuples(std::vector<int>(valid.size(), 3), [&](std::vector<int> const& t) {
        cx.test([&] { return set_str(c.set) + sum_str(s) + mc::vec_str(t); },
                [&] {
                  std::vector<double> a(n, 0);
                  std::vector<cd> ac(n, 0);
                  for(std::size_t i = 0; i < valid.size(); ++i)
                    ac[valid[i]] = a[valid[i]] = grid<double>(t[i]);
                  cd f(0.5, 2);
                  auto opc = make_loperator(make_sum<cd>(s, f), hs);
                  auto opr = make_loperator(make_sum<double>(s, 1.5), hs);
                  using V = std::vector<double>;
                  using VC = std::vector<cd>;
                  auto rc = ref_apply(l, s, f, ac), rr = ref_apply(l, s, 1.5, ac);
                  in_place<V, double, VC, cd>(opc, a, rc, "complex op vector->vector");
                  in_place<V, double, sparse_state_vector<cd>, cd>(opc, a, rc, "complex op vector->sparse");
                  in_place<sparse_state_vector<double>, double, VC, cd>(opc, a, rc, "complex op sparse->vector");
                  in_place<V, double, VC, cd>(opr, a, rr, "real op vector->vector");
                  in_place<EV<double>, double, EV<cd>, cd>(opc, a, rc, "complex op Eigen->Eigen");
                  cx.trans(30);
                  cx.validated();
                  cx.state(mc::hcomb(sp, mc::hdbl(std::abs(rc[0]) + std::abs(rr.back()))));
                });
      });
  }
}
// --- value semantics of operator objects -------------------------------------------------
FAMILY(operator_histories) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("all histories up to length ", L, " over 2 operator registers: construct one of 3 operators, copy/move construct, copy/move assign, self-assign, default-construct, applied after every step"));
  auto const& c = space(0);
  Layout l = layout(c.set);
  HS hs = build(c.set);
  using LOp = loperator<double, fermion, boson, spin>;
  // operations: (kind, a, b)
  struct O {
    int k, a, b;
  };
  std::vector<O> ops;
  for(int a = 0; a < 2; ++a)
    for(int m = 2; m <= 4; ++m)
      ops.push_back({0, a, m});
  for(int k = 1; k <= 5; ++k)
    for(int a = 0; a < 2; ++a)
      ops.push_back({k, a, 1 - a});
  mc::words(int(ops.size()), 1, L, [&](std::vector<int> const& w) {
    cx.test(
        [&] {
          std::string s;
          for(int i : w)
            s += mc::str("(", ops[i].k, ",", ops[i].a, ",", ops[i].b, ")");
          return s;
        },
        [&] {
          std::vector<LOp> r(2);
          std::vector<int> model(2, 0); // index of the Sum; ops[0] is the empty sum; -1: moved from
          for(int i : w) {
            O o = ops[i];
            cx.trans();
            switch(o.k) {
            case 0: {
              // the expression and the Hilbert space die before the operator is used
              HS tmp = hs;
              auto e = make_sum<double>(c.ops[o.b], 1.0);
              r[o.a] = LOp(e, tmp);
              model[o.a] = o.b;
            } break;
            case 1:
              if(model[o.b] < 0) return;
              {
                LOp t(r[o.b]);
                r[o.a] = t;
              }
              model[o.a] = model[o.b];
              break;
            case 2:
              if(model[o.b] < 0) return;
              {
                LOp t(std::move(r[o.b]));
                r[o.a] = std::move(t);
              }
              model[o.a] = model[o.b];
              model[o.b] = -1;
              break;
            case 3:
              if(model[o.a] < 0) return;
              {
                LOp& self = r[o.a];
                r[o.a] = self;
              }
              break;
            case 4: r[o.a] = LOp(); model[o.a] = 0; break;
            case 5: std::swap(r[0], r[1]); std::swap(model[0], model[1]); break;
            }
            for(int q = 0; q < 2; ++q) {
              if(model[q] < 0) continue;
              std::vector<double> a{1, -2, 0.5, 3};
              std::vector<cd> ac(a.begin(), a.end());
              auto res = r[q](a);
              auto ref = ref_apply(l, c.ops[model[q]], 1, ac);
              same_vec(std::vector<cd>(res.begin(), res.end()), ref, mc::str("register ", q));
            }
            cx.validated();
            cx.state(mc::hcomb(model[0] + 7, model[1] + 7));
          }
        });
  });
}
// --- amplitudes of very different magnitudes --------------------------------------------
template <typename Src, typename Dst> static void mixed_magnitudes(mc::Ctx& cx, HS const& hs, Layout const& l, Sum const& s, std::vector<double> const& a, char const* what) {
  auto op = make_loperator(make_sum<double>(s, 1.0), hs);
  std::vector<double> ex(a.size(), 0), wt(a.size(), 0);
  for(std::size_t i = 0; i < a.size(); ++i) {
    if(a[i] == 0) continue;
    for(auto const& p : column(l, s, i))
      ex[p.first] += p.second.real() * a[i];
    for(auto const& p : weights(l, s, i))
      wt[p.first] += p.second * std::abs(a[i]);
  }
  auto src = mk<Src, double>::make(a);
  auto dst = mk<Dst, double>::make(std::vector<double>(a.size(), 3e-13));
  op(src, dst);
  for(std::size_t i = 0; i < a.size(); ++i) {
    double got = get_element(dst, i);
    MC_CHECK(std::abs(got - ex[i]) <= 1.1e-13 + 1e-13 * wt[i], what, ": amplitude ", i, " is ", got, " expected ", ex[i]);
    MC_CHECK(get_element(src, i) == a[i], what, ": amplitude ", i, " of the source changed to ", get_element(src, i));
  }
  cx.trans();
}
FAMILY(amplitude_magnitudes) {
  cx.bound("4 spaces, every operator of the pool, all states with amplitudes 0, 2, 4.3e-13 and -4.7e9, 6 pairs of containers");
  static double const am[4] = {0, 2, 4.3e-13, -4.7e9};
  for(int sp = 0; sp < 4; ++sp) {
    auto const& c = space(sp);
    Layout l = layout(c.set);
    HS hs = build(c.set);
    auto valid = states(l);
    for(auto const& s : c.ops)
      mc::tuples(std::vector<int>(valid.size(), 4), [&](std::vector<int> const& t) {
        cx.test([&] { return set_str(c.set) + sum_str(s) + mc::vec_str(t); },
                [&] {
                  std::vector<double> a(get_vec_size(hs), 0);
                  for(std::size_t i = 0; i < valid.size(); ++i)
                    a[valid[i]] = am[t[i]];
                  using V = std::vector<double>;
                  using SP = sparse_state_vector<double>;
                  using E = EV<double>;
                  mixed_magnitudes<V, V>(cx, hs, l, s, a, "vector->vector");
                  mixed_magnitudes<SP, SP>(cx, hs, l, s, a, "sparse->sparse");
                  mixed_magnitudes<E, E>(cx, hs, l, s, a, "Eigen->Eigen");
                  mixed_magnitudes<V, SP>(cx, hs, l, s, a, "vector->sparse");
                  mixed_magnitudes<SP, E>(cx, hs, l, s, a, "sparse->Eigen");
                  mixed_magnitudes<E, V>(cx, hs, l, s, a, "Eigen->vector");
                  cx.validated(6);
                  uint64_t h = mc::hstr(sum_str(s));
                  for(int k : t)
                    h = mc::hcomb(h, k);
                  cx.state(h);
                });
      });
  }
}
// --- operators of many monomials on larger spaces ----------------------------------------
// the k-th monomial of a fixed enumeration, each canonical and distinct
static Word kth(std::vector<ES> const& set, int k) {
  Word w;
  for(auto const& e : set) {
    int c = k & 3;
    k >>= 2;
    if(e.kind == 0) {
      if(c & 1) w.push_back(F(1, e.idx));
      if(c & 2) w.push_back(F(0, e.idx));
    } else if(e.kind == 1) {
      if(c & 1) w.push_back(B(1, e.idx));
      if(c & 2) w.push_back(B(0, e.idx));
    } else if(c)
      w.push_back(S(c - 1, e.par, e.idx));
  }
  return w;
}
FAMILY(large_operators) {
  bool big = cx.thorough();
  std::vector<int> ns{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256};
  if(big) ns.insert(ns.end(), {257, 511, 512, 513, 1000});
  std::vector<std::vector<ES>> sets{
      {{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}},
      {{0, 2, 0}, {0, 2, 1}, {1, 3, 0}, {1, 4, 1}},
      {{0, 2, 0}, {1, 2, 0}, {2, 2, 0}, {2, 3, 1}},
      {{1, 5, 0}, {1, 8, 1}, {2, 4, 0}, {2, 2, 1}},
      {{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}, {1, 2, 4}, {1, 2, 5}, {1, 2, 6}, {2, 2, 0}}};
  cx.bound(mc::str("operators of 1 to ", ns.back(), " monomials on ", sets.size(), " spaces of up to 2^9 index values; 4 states (one basis state, every second, every one, one amplitude of 1e-200): 6 source/destination type pairs, dirty destinations, call, product and in-place forms; real and complex operators; applied through copies and moved operators"));
  for(auto const& set : sets)
    for(int n : ns) {
      int maxk = 1;
      for(std::size_t i = 0; i < set.size(); ++i)
        maxk *= 4;
      if(n > maxk) continue;
      for(int st = 0; st < 4; ++st)
        cx.test([&] { return set_str(set) + mc::str(n, " monomials, state ", st); },
                [&] {
                  HS hs = build(set);
                  Layout l = layout(set);
                  Sum s;
                  int step = maxk > 1000 ? 37 : 1; // spread over the enumeration
                  for(int i = 0; i < n; ++i)
                    s.emplace_back(double(i % 9) - 3.0 + (i % 9 == 3 ? 10 : 0), kth(set, i * step % maxk));
                  auto valid = states(l);
                  std::size_t dim = get_vec_size(hs);
                  std::vector<double> a(dim, 0);
                  std::vector<cd> ac(dim, 0);
                  for(std::size_t i = 0; i < valid.size(); ++i) {
                    bool on = st == 0 ? i == valid.size() / 2 : st == 1 ? i % 2 == 0 : true;
                    if(!on) continue;
                    a[valid[i]] = st == 3 && i == 1 ? 1e-200 : double(i % 7) - 2.5;
                    ac[valid[i]] = cd(a[valid[i]], double(i % 5) - 2);
                  }
                  all_forms<double, double>(cx, hs, l, s, 1.0, a);
                  all_forms<cd, cd>(cx, hs, l, s, cd(0.5, -2), ac);
                  auto e = make_sum<double>(s, 1.0);
                  auto op = make_loperator(e, hs);
                  auto cp = op;
                  auto mv = std::move(op);
                  using V = std::vector<double>;
                  auto ref = ref_apply(l, s, 1.0, std::vector<cd>(a.begin(), a.end()));
                  by_value<V, double>(cp, a, ref, "copied operator");
                  by_value<V, double>(mv, a, ref, "moved operator");
                  mv = cp;
                  cp = decltype(cp)();
                  by_value<V, double>(mv, a, ref, "operator after its source was cleared");
                  MC_CHECK(mc::close(cp(a)[valid[0]], 0.0), "a default-constructed operator is not zero");
                });
    }
}
// --- a state vector type defined by the user, with nothing but the documented interface -------
template <typename A> struct mk<user::list_vector<A>, A> {
  static user::list_vector<A> make(std::vector<A> const& a) {
    user::list_vector<A> v(a.size());
    for(std::size_t i = a.size(); i-- > 0;) // every element is stored, zeros too, last one first
      v.items.emplace_back((i * 5 + 3) % a.size(), a[(i * 5 + 3) % a.size()]);
    if(a.size() % 5 == 0) {
      v.items.clear();
      for(std::size_t i = a.size(); i-- > 0;)
        v.items.emplace_back(i, a[i]);
    }
    return v;
  }
};
template <typename Sc, typename A> static void user_vector(mc::Ctx& cx, int K, Sc factor) {
  cx.bound(mc::str("4 spaces, every operator of the pool, all states with amplitudes from ", K, " values: a user-defined vector type (unordered pairs, explicit zeros, range checks) as source, destination and both, with std, sparse and Eigen partners"));
  for(int sp = 0; sp < 4; ++sp) {
    auto const& c = space(sp);
    Layout l = layout(c.set);
    HS hs = build(c.set);
    std::size_t n = get_vec_size(hs);
    auto valid = states(l);
    for(auto const& s : c.ops)
      mc::tuples(std::vector<int>(valid.size(), K), [&](std::vector<int> const& t) {
        cx.test([&] { return set_str(c.set) + sum_str(s) + " on " + mc::vec_str(t); },
                [&] {
                  std::vector<A> a(n, A(0));
                  for(std::size_t i = 0; i < valid.size(); ++i)
                    a[valid[i]] = grid<A>(t[i]);
                  auto e = make_sum<Sc>(s, factor);
                  auto op = make_loperator(e, hs);
                  std::vector<cd> ac(a.begin(), a.end());
                  auto ref = ref_apply(l, s, cd(factor), ac);
                  using U = user::list_vector<A>;
                  using V = std::vector<A>;
                  using SP = sparse_state_vector<A>;
                  in_place<U, A, U, A>(op, a, ref, "user->user");
                  in_place<U, A, V, A>(op, a, ref, "user->vector");
                  in_place<V, A, U, A>(op, a, ref, "vector->user");
                  in_place<SP, A, U, A>(op, a, ref, "sparse->user");
                  in_place<U, A, SP, A>(op, a, ref, "user->sparse");
                  in_place<EV<A>, A, U, A>(op, a, ref, "Eigen->user");
                  in_place<U, A, EV<A>, A>(op, a, ref, "user->Eigen");
                  by_value<U, A>(op, a, ref, "user");
                  cx.trans(60);
                  cx.validated();
                  uint64_t h = sp;
                  for(auto const& x : ref)
                    h = mc::hcomb(h, mc::hcomb(mc::hdbl(x.real()), mc::hdbl(x.imag())));
                  cx.state(h);
                });
      });
  }
}
FAMILY(user_vectors_real) { user_vector<double, double>(cx, cx.pick(2, 3), 1.5); }
FAMILY(user_vectors_mixed) { user_vector<double, cd>(cx, cx.pick(2, 3), -2.0); }
FAMILY(user_vectors_complex) { user_vector<cd, cd>(cx, cx.pick(2, 3), cd(1, 0.5)); }
