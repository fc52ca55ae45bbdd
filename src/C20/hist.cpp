// C20: all state vector types behave as the same array of amplitudes
#include "hist.hpp"
FAMILY(histories_double) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("all operation histories up to length ", L, " (17 operations, 23 for the sparse vector) on vectors of size 4 of 14 types, amplitudes double, observed completely after every step, const and non-const"));
  every_type<double, Histories>(cx, L);
}
FAMILY(histories_complex) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("same with complex amplitudes, length ", L));
  every_type<cd, Histories>(cx, L);
}
FAMILY(histories_magnitudes) {
  int L = cx.pick(2, 3);
  cx.bound(mc::str("same with real amplitudes +-4.3e-13 and 4.7e11 and with complex ones that leave 4.3e-13 in one component after cancellation, length ", L));
  small_and_large = true;
  every_type<double, Histories>(cx, L);
  every_type<cd, Histories>(cx, L);
  small_and_large = false;
}
FAMILY(histories_int) {
  int L = 3;
  cx.bound("same with int amplitudes, length 3");
  every_type<int, Histories>(cx, L);
}
// --- custom scalar type without compound assignment -------------------------------------
struct Num {
  long v = 0;
  Num() = default;
  explicit Num(long v) : v(v) {}
  Num operator+(Num const& o) const { return Num(v + o.v); }
  Num operator*(Num const& o) const { return Num(v * o.v); }
  bool operator==(Num const& o) const { return v == o.v; }
};
namespace libcommute {
template <> struct scalar_traits<Num> {
  static bool is_zero(Num const& x) { return x.v == 0; }
  static Num make_const(double x) { return Num(long(x)); }
  static Num make_const(var_number const& x) { return Num(int(x)); }
};
} // namespace libcommute
FAMILY(custom_scalar) {
  int L = cx.pick(5, 6);
  cx.bound(mc::str("std::vector of a custom scalar without +=: all histories up to length ", L, " of adding +1/-1/2 to 2 elements and zeroing"));
  mc::words(7, 1, L, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              std::vector<Num> v(2);
              long m[2] = {0, 0};
              for(int o : w) {
                if(o < 6) {
                  long d = o % 3 == 0 ? 1 : o % 3 == 1 ? -1 : 2;
                  update_add_element(v, o / 3, Num(d));
                  m[o / 3] += d;
                } else {
                  set_zeros(v);
                  m[0] = m[1] = 0;
                }
                int seen = 0;
                foreach(v, [&](sv_index_type n, Num const& x) {
                  MC_CHECK(x.v == m[n] && x.v != 0, "element ", n);
                  ++seen;
                });
                MC_CHECK(seen == (m[0] != 0) + (m[1] != 0), "foreach() visited ", seen);
                auto z = zeros_like(v);
                MC_CHECK(z.size() == 2 && z[0].v == 0 && z[1].v == 0, "zeros_like");
                MC_CHECK(get_element(v, 0).v == m[0] && get_element(v, 1).v == m[1], "get_element");
                cx.trans();
              }
              cx.validated();
              cx.state(mc::hcomb(m[0] + 100, m[1] + 100));
            });
  });
}
// Stored zeros of a sparse vector
FAMILY(sparse_pruning) {
  int L = cx.pick(4, 5);
  cx.bound(mc::str("all histories up to length ", L, " of element access creating zeros or values through operator[], update_add_element, prune(), prune(predicate), set_zeros, against a model of the stored elements"));
  // ops: 0-2 touch sv[n]; 3-5 sv[n] = 1; 6-8 sv[n] = -2; 9-11 add 2; 12 prune; 13 prune(<0); 14 prune(>=1); 15 zero
  mc::words(16, 1, L, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              sparse_state_vector<double> v(1000);
              std::map<uint64_t, double> m;
              uint64_t const at[3] = {0, 500, 999};
              for(int o : w) {
                if(o < 3) {
                  double& r = v[at[o]];
                  double& q = m[at[o]];
                  MC_CHECK(r == q, "operator[] returned ", r);
                } else if(o < 9) {
                  double x = o < 6 ? 1 : -2;
                  v[at[o % 3]] = x;
                  m[at[o % 3]] = x;
                } else if(o < 12) {
                  update_add_element(v, at[o % 3], 2);
                  double& q = m[at[o % 3]];
                  q += 2;
                  if(q == 0) m.erase(at[o % 3]);
                } else if(o < 15) {
                  auto pred = [&](double x) { return o == 12 ? x == 0 : o == 13 ? x < 0 : x >= 1; };
                  if(o == 12) v.prune();
                  else
                    v.prune(pred);
                  for(auto it = m.begin(); it != m.end();)
                    it = pred(it->second) ? m.erase(it) : std::next(it);
                } else {
                  set_zeros(v);
                  m.clear();
                }
                MC_CHECK(v.n_nonzeros() == m.size(), "n_nonzeros() = ", v.n_nonzeros(), " expected ", m.size());
                MC_CHECK(v.size() == 1000, "size()");
                for(uint64_t n : {at[0], at[1], at[2], uint64_t(1)})
                  MC_CHECK(get_element(v, n) == (m.count(n) ? m[n] : 0), "element ", n);
                MC_CHECK(v.n_nonzeros() == m.size(), "get_element() inserted an element");
                std::map<uint64_t, double> nz, seen;
                for(auto const& p : m)
                  if(p.second != 0) nz.insert(p);
                foreach(v, [&](sv_index_type n, double x) {
                  if(x != 0) MC_CHECK(seen.emplace(n, x).second, "visited twice");
                });
                MC_CHECK(seen == nz, "foreach()");
                cx.trans();
              }
              cx.validated();
              uint64_t h = 3;
              for(auto const& p : m)
                h = mc::hcomb(h, mc::hcomb(p.first, mc::hdbl(p.second)));
              cx.state(h);
            });
  });
}
// Sparse vectors with many stored elements
FAMILY(sparse_large) {
  int L = cx.pick(3, 4);
  std::vector<int> sizes{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
  cx.bound(mc::str("sparse vectors with 18 numbers of stored elements from 1 to 1000, filled in 3 orders, and all histories up to length ", L, " of 8 whole-vector operations after which everything is compared: set_zeros, prune, prune(predicate), cancellation of all or of every other element, adding to all, zeros_like, copying"));
  for(int n : sizes)
    for(int order = 0; order < 3; ++order)
      mc::words(8, 1, n > 300 ? L - 1 : L, [&](std::vector<int> const& w) {
        cx.test([&] { return mc::str(n, " elements, order ", order, " ", mc::vec_str(w)); },
                [&] {
                  uint64_t const D = uint64_t(1) << 40;
                  sparse_state_vector<double> v(D);
                  std::map<uint64_t, double> m;
                  auto pos = [&](int i) { return uint64_t(i) * 1000003u + (i % 3 == 0 ? D / 2 : 0); };
                  auto add = [&](sparse_state_vector<double>& sv, std::map<uint64_t, double>& mm, int i, double x) {
                    update_add_element(sv, pos(i), x);
                    double& q = mm[pos(i)];
                    q += x;
                    if(q == 0) mm.erase(pos(i));
                  };
                  for(int i = 0; i < n; ++i) {
                    int j = order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2);
                    add(v, m, j, 1 + j % 5);
                  }
                  auto verify = [&](sparse_state_vector<double> const& sv, std::map<uint64_t, double> const& mm, char const* what) {
                    MC_CHECK(sv.n_nonzeros() == mm.size(), what, ": n_nonzeros() = ", sv.n_nonzeros(), " expected ", mm.size());
                    MC_CHECK(sv.size() == D, what, ": size()");
                    std::map<uint64_t, double> seen, nz;
                    for(auto const& p : mm)
                      if(p.second != 0) nz.insert(p);
                    foreach(sv, [&](sv_index_type k, double x) {
                      if(x != 0) MC_CHECK(seen.emplace(k, x).second, what, ": foreach() visited ", k, " twice");
                    });
                    MC_CHECK(seen == nz, what, ": foreach()");
                    for(int i = 0; i < n; ++i) {
                      auto it = mm.find(pos(i));
                      MC_CHECK(get_element(sv, pos(i)) == (it == mm.end() ? 0 : it->second), what, ": element ", pos(i));
                    }
                  };
                  verify(v, m, "filled");
                  for(int o : w) {
                    switch(o) {
                    case 0:
                      set_zeros(v);
                      m.clear();
                      break;
                    case 1: // stored zeros, then pruned
                      for(int i = 0; i < n; i += 3) {
                        v[pos(i)] = 0;
                        m.erase(pos(i));
                      }
                      v.prune();
                      for(auto it = m.begin(); it != m.end();)
                        it = it->second == 0 ? m.erase(it) : std::next(it);
                      break;
                    case 2: {
                      v.prune([](double x) { return x > 2.5; });
                      for(auto it = m.begin(); it != m.end();)
                        it = it->second > 2.5 ? m.erase(it) : std::next(it);
                    } break;
                    case 3:
                      for(int i = 0; i < n; ++i) {
                        auto it = m.find(pos(i));
                        if(it != m.end() && it->second != 0) add(v, m, i, -it->second);
                      }
                      break;
                    case 4:
                      for(int i = 0; i < n; i += 2) {
                        auto it = m.find(pos(i));
                        if(it != m.end() && it->second != 0) add(v, m, i, -it->second);
                      }
                      break;
                    case 5:
                      for(int i = 0; i < n; ++i)
                        add(v, m, i, i % 2 ? 2 : -1);
                      break;
                    case 6: {
                      auto z = zeros_like(v);
                      verify(z, {}, "zeros_like");
                      auto mm = m;
                      auto c = v;
                      set_zeros(c);
                      verify(c, {}, "zeroed copy");
                      c = v;
                      add(c, mm, 0, 3);
                      verify(c, mm, "copy");
                    } break;
                    default: // zeros are stored until they are pruned
                      for(int i = 1; i < n; i += 2) {
                        v[pos(i)] = 0;
                        m[pos(i)] = 0;
                      }
                    }
                    verify(v, m, "vector");
                    cx.trans();
                  }
                  cx.validated();
                  uint64_t h = mc::hcomb(n, order);
                  for(auto const& p : m)
                    h = mc::hcomb(h, mc::hcomb(p.first, mc::hdbl(p.second)));
                  cx.state(h);
                });
      });
}
