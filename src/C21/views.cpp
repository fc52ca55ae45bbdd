// C21: compressed views number the valid basis states 0..dim-1 in order
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
#include "uservec.hpp"
using namespace refop;
using Vec = std::vector<double>;

static std::vector<ES> user_set(std::vector<int> const& dims) {
  std::vector<ES> v;
  for(std::size_t i = 0; i < dims.size(); ++i)
    v.push_back({10, uint64_t(dims[i]), int(i)});
  return v;
}
template <typename View> static void check_iteration(View const& view, std::vector<uint64_t> const& st, Vec const& a, std::string const& w) {
  std::vector<bool> seen(a.size(), false);
  foreach(view, [&](sv_index_type n, double x) {
    auto it = std::lower_bound(st.begin(), st.end(), n);
    MC_CHECK(it != st.end() && *it == n, w, ": foreach() reported ", n, ", not a basis state");
    std::size_t k = it - st.begin();
    MC_CHECK(!seen[k], w, ": foreach() reported state ", n, " twice");
    seen[k] = true;
    MC_CHECK(x == a[k] && x != 0, w, ": foreach() gave ", x, " for state ", n, " expected ", a[k]);
  });
  for(std::size_t k = 0; k < a.size(); ++k)
    MC_CHECK(seen[k] == (a[k] != 0), w, ": foreach() missed state ", st[k]);
}
// Everything observable of the views of one space
static void check_space(HS const& hs, std::vector<ES> const& set) {
  Layout l = layout(set);
  auto st = states(l);
  std::string w = "view of " + set_str(l.es);
  MC_CHECK(st.size() == hs.dim(), w, ": dim() = ", hs.dim());
  Vec v(st.size());
  for(std::size_t i = 0; i < v.size(); ++i)
    v[i] = double(i % 5) - 1;
  auto view = make_comp_state_view(v, hs);
  auto cview = make_const_comp_state_view(v, hs);
  auto own = make_comp_state_view(Vec(v), hs);
  for(std::size_t i = 0; i < st.size(); ++i) {
    MC_CHECK(view.map_index(st[i]) == i, w, ": map_index(", st[i], ") = ", view.map_index(st[i]), " expected ", i);
    MC_CHECK(get_element(view, st[i]) == v[i] && get_element(cview, st[i]) == v[i] && get_element(own, st[i]) == v[i], w, ": element ", st[i]);
  }
  if(set.empty()) return; // views of an empty product have no states to visit
  check_iteration(view, st, v, w);
  check_iteration(cview, st, v, w + " (const)");
  check_iteration(own, st, v, w + " (owning)");
  for(std::size_t i = 0; i < st.size(); ++i) {
    update_add_element(view, st[i], double(i));
    update_add_element(own, st[i], 2 * i);
  }
  for(std::size_t i = 0; i < st.size(); ++i) {
    double o = double(i % 5) - 1;
    MC_CHECK(v[i] == o + i, w, ": stored element ", i, " after update");
    MC_CHECK(get_element(own, st[i]) == o + 2 * i, w, ": own element ", i, " after update");
  }
  set_zeros(view);
  for(auto x : v)
    MC_CHECK(x == 0, w, ": set_zeros()");
  check_iteration(view, st, v, w + " zeroed");
}
FAMILY(dimension_tuples) {
  int maxd = cx.pick(6, 9), L = 4;
  cx.bound(mc::str("all tuples of up to ", L, " elementary dimensions 1..", maxd, " (order matters), all basis states"));
  mc::words(maxd, 0, L, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              std::vector<int> d;
              for(int i : w)
                d.push_back(i + 1);
              auto set = user_set(d);
              check_space(build(set), set);
              cx.trans(layout(set).dim);
              cx.validated();
              cx.state(hash(layout(set)));
            });
  });
}
FAMILY(longer_tuples) {
  int L = cx.pick(7, 8);
  cx.bound(mc::str("all tuples of 5..", L, " elementary dimensions from {1,2,3} and of 5 from {1,2,3,5,6}, all basis states"));
  auto go = [&](std::vector<int> const& D, int lo, int hi) {
    mc::words(int(D.size()), lo, hi, [&](std::vector<int> const& w) {
      cx.test([&] { return mc::vec_str(w); },
              [&] {
                std::vector<int> d;
                for(int i : w)
                  d.push_back(D[i]);
                auto set = user_set(d);
                check_space(build(set), set);
                cx.trans(layout(set).dim);
                cx.validated();
                cx.state(hash(layout(set)));
              });
    });
  };
  go({1, 2, 3}, 5, L);
  go({1, 2, 3, 5, 6}, 5, 5);
}
FAMILY(physical_spaces) {
  std::vector<ES> pool{{0, 2, 0}, {0, 2, 1}, {1, 1, 0}, {1, 3, 1}, {1, 4, 2}, {1, 6, 3}, {2, 2, 0}, {2, 3, 0}, {2, 5, 0}, {2, 4, 0}, {10, 3, 0}};
  int k = cx.pick(4, 6);
  cx.bound(mc::str("all subsets of up to ", k, " of ", pool.size(), " fermion/boson/spin/user spaces, all basis states"));
  subsets(pool, k, [&](std::vector<ES> const& set) {
    cx.test([&] { return set_str(set); },
            [&] {
              check_space(build(set), set);
              cx.trans(layout(set).dim);
              cx.validated();
              cx.state(hash(layout(set)));
            });
  });
}
// Spaces too large to enumerate: bit positions up to 62, sparse underlying vector
FAMILY(large_spaces) {
  std::vector<uint64_t> D{2, 3, 6, 1ull << 20, (1ull << 20) + 1, (1ull << 31) - 1, (1ull << 32) - 5, 1ull << 31};
  cx.bound("all tuples of up to 4 elementary dimensions from {2,3,6,2^20,2^20+1,2^31-1,2^32-5,2^31} within 62 bits; all combinations of digits {0,1,middle,last} of each; index map, reading and writing of a sparse vector of that dimension");
  mc::words(int(D.size()), 1, 4, [&](std::vector<int> const& w) {
    int bits = 0;
    for(int i : w)
      bits += es_bits({10, D[i], 0});
    if(bits > 62) return;
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              std::vector<ES> set;
              for(std::size_t i = 0; i < w.size(); ++i)
                set.push_back({10, D[w[i]], int(i)});
              Layout l = layout(set);
              HS hs = build(set);
              sparse_state_vector<double> v(hs.dim());
              auto view = make_comp_state_view(v, hs);
              int k = 0;
              std::map<uint64_t, double> model;
              mc::tuples(std::vector<int>(w.size(), 4), [&](std::vector<int> const& t) {
                Occ n;
                uint64_t pos = 0, stride = 1;
                for(std::size_t i = 0; i < w.size(); ++i) {
                  uint64_t d = D[w[i]], x = t[i] == 0 ? 0 : t[i] == 1 ? 1 : t[i] == 2 ? d / 2 : d - 1;
                  n.push_back(x);
                  pos += x * stride;
                  stride *= d;
                }
                uint64_t s = encode(l, n);
                MC_CHECK(view.map_index(s) == pos, "map_index(", s, ") = ", view.map_index(s), " expected ", pos);
                ++k;
                update_add_element(view, s, double(k));
                model[pos] += k;
                MC_CHECK(get_element(view, s) == model[pos] && get_element(v, pos) == model[pos], "element ", s);
                cx.trans();
              });
              MC_CHECK(v.n_nonzeros() == model.size(), "number of stored elements ", v.n_nonzeros(), " expected ", model.size());
              cx.validated();
              cx.state(hash(l));
            });
  });
}
// --- histories of operations on a reference and an owning view, and copies ------------------
static std::vector<ES> const& hist_space(int k) {
  static std::vector<std::vector<ES>> s{{{1, 3, 0}, {0, 2, 0}}, {{0, 2, 0}, {0, 2, 1}}, {{2, 3, 0}, {1, 3, 0}}, {{1, 3, 0}, {2, 2, 0}}};
  return s[k];
}
template <typename V> static V zero(std::size_t n) { return V(n); }
template <> Vec zero<Vec>(std::size_t n) { return Vec(n, 0); }
template <> Eigen::VectorXd zero<Eigen::VectorXd>(std::size_t n) { return Eigen::VectorXd::Zero(n); }
template <typename V> static void histories(mc::Ctx& cx, int L, char const* name) {
  // ops: 0-3 add 1/-1 to first/last valid state through a; 4-5 add 2 to state 1 through b (copy of a) / owner c;
  // 6 zero through a; 7 zero through c; 8 copy c -> d and write d; 9 move c through a temporary; 10 write the vector directly
  for(int sp = 0; sp < 4; ++sp)
    mc::words(11, 1, L, [&](std::vector<int> const& w) {
      cx.test([&] { return mc::str(name, " space ", sp, " ", mc::vec_str(w)); },
              [&] {
                auto const& set = hist_space(sp);
                Layout l = layout(set);
                auto st = states(l);
                std::size_t D = st.size();
                V v = zero<V>(D);
                Vec m(D, 0), mc_(D, 0);
                auto hs = std::unique_ptr<HS>(new HS(build(set)));
                auto a = make_comp_state_view(v, *hs);
                auto ca = make_const_comp_state_view(v, *hs);
                auto b = a;
                auto c = std::unique_ptr<compressed_state_view<V, false>>(new compressed_state_view<V, false>(make_comp_state_view(zero<V>(D), *hs)));
                hs.reset(); // views do not need the space any more
                for(int o : w) {
                  switch(o) {
                  case 0: update_add_element(a, st[0], 1); m[0] += 1; break;
                  case 1: update_add_element(a, st[0], -1.0); m[0] += -1; break;
                  case 2: update_add_element(a, st[D - 1], 1); m[D - 1] += 1; break;
                  case 3: update_add_element(a, st[D - 1], -1.0); m[D - 1] += -1; break;
                  case 4: update_add_element(b, st[1], 2); m[1] += 2; break;
                  case 5: update_add_element(*c, st[1], 2); mc_[1] += 2; break;
                  case 6: set_zeros(a); m.assign(D, 0); break;
                  case 7: set_zeros(*c); mc_.assign(D, 0); break;
                  case 8: {
                    auto d = *c;
                    update_add_element(d, st[2], 5);
                    MC_CHECK(get_element(d, st[2]) == mc_[2] + 5, "copied view");
                    break;
                  }
                  case 9: {
                    auto d = std::unique_ptr<compressed_state_view<V, false>>(new compressed_state_view<V, false>(std::move(*c)));
                    c = std::move(d);
                    break;
                  }
                  default: update_add_element(v, D - 2, 3); m[D - 2] += 3;
                  }
                  check_iteration(a, st, m, "view");
                  check_iteration(b, st, m, "copy of the view");
                  check_iteration(ca, st, m, "const view");
                  check_iteration(*c, st, mc_, "owning view");
                  for(std::size_t i = 0; i < D; ++i)
                    MC_CHECK(get_element(a, st[i]) == m[i] && get_element(b, st[i]) == m[i] && get_element(ca, st[i]) == m[i] && get_element(v, i) == m[i] && get_element(*c, st[i]) == mc_[i], "element ", st[i]);
                  cx.trans();
                }
                cx.validated();
                uint64_t h = mc::hcomb(sp, mc::hstr(name));
                for(std::size_t i = 0; i < D; ++i)
                  h = mc::hcomb(h, mc::hcomb(mc::hdbl(m[i]), mc::hdbl(mc_[i])));
                cx.state(h);
              });
    });
}
FAMILY(histories_std) {
  int L = cx.pick(4, 5);
  cx.bound(mc::str("all histories up to length ", L, " of 11 operations on a view, its copy, a const view, an owning view and the vector, 4 spaces, std::vector"));
  histories<Vec>(cx, L, "std::vector");
}
FAMILY(histories_eigen) {
  int L = cx.pick(3, 5);
  cx.bound(mc::str("same with an Eigen vector, length ", L));
  histories<Eigen::VectorXd>(cx, L, "Eigen");
}
FAMILY(histories_sparse) {
  int L = cx.pick(3, 5);
  cx.bound(mc::str("same with a sparse vector, length ", L));
  histories<sparse_state_vector<double>>(cx, L, "sparse");
}
FAMILY(histories_user) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("same with a user-defined vector type, length ", L));
  histories<user::list_vector<double>>(cx, L, "user");
}
// --- operators through views ------------------------------------------------------------------
static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }
static std::vector<Op> gens(std::vector<ES> const& set) {
  std::vector<Op> g;
  for(auto const& e : set) {
    if(e.kind == 0) {
      g.push_back(F(0, e.idx));
      g.push_back(F(1, e.idx));
    } else if(e.kind == 1) {
      g.push_back(B(0, e.idx));
      g.push_back(B(1, e.idx));
    } else
      for(int c = 0; c < 3; ++c)
        g.push_back(S(c, e.par, e.idx));
  }
  return g;
}
template <typename Sc> static void through_views(mc::Ctx& cx, int L) {
  std::vector<ES> pool{{0, 2, 0}, {0, 2, 1}, {1, 2, 0}, {1, 3, 1}, {1, 5, 2}, {2, 2, 0}, {2, 3, 0}, {2, 4, 1}};
  subsets(pool, 3, [&](std::vector<ES> const& set) {
    if(set.empty()) return;
    auto g = gens(set);
    mc::words(int(g.size()), 0, L, [&](std::vector<int> const& wd) {
      cx.test([&] { return mc::str(set_str(set), " ", mc::vec_str(wd)); },
              [&] {
                Layout l = layout(set);
                auto st = states(l);
                HS hs = build(set);
                Word w;
                for(int i : wd)
                  w.push_back(g[i]);
                Sum s{{2, w}, {-1, {}}};
                auto e = Sc(2) * to_expr<Sc>(w) - Sc(1);
                auto op = make_loperator(e, hs);
                Sum stored = to_sum(e); // normal ordered form, exact also at the truncation of bosons
                for(std::size_t i = 0; i < st.size(); ++i) {
                  Col col = column(l, stored, st[i]);
                  std::vector<Sc> src(st.size(), Sc(0)), dst(st.size(), Sc(7)), full(hs.vec_size(), Sc(0)), fdst(hs.vec_size(), Sc(5));
                  Eigen::Matrix<Sc, Eigen::Dynamic, 1> ed = Eigen::Matrix<Sc, Eigen::Dynamic, 1>::Constant(st.size() + 2, Sc(3));
                  src[i] = Sc(1);
                  full[st[i]] = Sc(1);
                  auto sv = make_const_comp_state_view(src, hs);
                  auto dv = make_comp_state_view(dst, hs);
                  auto ev = make_comp_state_view(ed.segment(1, st.size()), hs);
                  op(sv, dv);
                  op(sv, fdst);
                  op(sv, ev);
                  auto verify = [&](char const* how) {
                    for(std::size_t k = 0; k < st.size(); ++k) {
                      auto it = col.find(st[k]);
                      cd ex = it == col.end() ? cd(0) : it->second;
                      MC_CHECK(mc::close(cd(dst[k]), ex), how, " view to view: <", st[k], "|O|", st[i], "> = ", cd(dst[k]), " expected ", ex);
                      MC_CHECK(mc::close(cd(fdst[st[k]]), ex), how, " view to full vector: <", st[k], "|O|", st[i], ">");
                      MC_CHECK(mc::close(cd(ed(1 + k)), ex), how, " view to view of a segment: <", st[k], "|O|", st[i], "> = ", cd(ed(1 + k)), " expected ", ex);
                    }
                    cd sum = 0;
                    for(auto const& x : fdst)
                      sum += std::abs(x);
                    cd rs = 0;
                    for(auto const& p : col)
                      rs += std::abs(p.second);
                    MC_CHECK(mc::close(sum, rs), how, " view to full vector: amplitudes on invalid states");
                    MC_CHECK(ed(0) == Sc(3) && ed(st.size() + 1) == Sc(3), how, ": elements outside of the segment");
                  };
                  verify("from view,");
                  dst.assign(st.size(), Sc(9));
                  op(full, dv);
                  verify("from full vector,");
                  // a view made from a const vector
                  std::vector<Sc> const csrc(src);
                  auto csv = make_const_comp_state_view(csrc, hs);
                  dst.assign(st.size(), Sc(-9));
                  op(csv, dv);
                  verify("from view of a const vector,");
                  cx.trans(5);
                  cx.state(hash(col));
                }
                cx.validated();
              });
    });
  });
}
FAMILY(operators_real) {
  int L = cx.pick(2, 3);
  cx.bound(mc::str("all operators 2*word-1 with words up to length ", L, " on all subsets of up to 3 of 8 spaces, every column; views, views of Eigen segments, full vectors"));
  through_views<double>(cx, L);
}
FAMILY(operators_complex) {
  int L = cx.pick(1, 2);
  cx.bound(mc::str("same with complex amplitudes, words up to length ", L));
  through_views<cd>(cx, L);
}

// Views named by their type, with the defaults of the template
FAMILY(default_arguments) {
  cx.bound("compressed_state_view<V> and <V, true> refer to the vector they are given, <V, false> owns a copy, for all states of 3 spaces (std, sparse, Eigen vectors)");
  std::vector<std::vector<int>> spaces{{3}, {2, 3}, {3, 5, 2}};
  for(auto const& d : spaces)
    for(int t = 0; t < 3; ++t)
      cx.test([&] { return mc::str(mc::vec_str(d), " vector type ", t); },
              [&] {
                auto set = user_set(d);
                HS hs = build(set);
                auto st = states(layout(set));
                auto go = [&](auto v) {
                  using V = decltype(v);
                  for(std::size_t i = 0; i < st.size(); ++i) {
                    compressed_state_view<V> a(v, hs);
                    compressed_state_view<V, true> b(v, hs);
                    compressed_state_view<V, false> c(v, hs);
                    update_add_element(a, st[i], 2.0);
                    MC_CHECK(get_element(v, i) == 2, "an update through compressed_state_view<V> must reach the vector");
                    update_add_element(b, st[i], 3.0);
                    MC_CHECK(get_element(v, i) == 5 && get_element(a, st[i]) == 5 && get_element(b, st[i]) == 5, "two referring views of one vector");
                    update_add_element(c, st[i], 7.0);
                    MC_CHECK(get_element(v, i) == 5 && get_element(c, st[i]) == 7, "an owning view must leave the vector alone");
                    set_zeros(c);
                    MC_CHECK(get_element(v, i) == 5, "zeroing an owning view");
                    set_zeros(a);
                    MC_CHECK(get_element(v, i) == 0, "zeroing through a referring view");
                    cx.trans(5);
                  }
                };
                if(t == 0) go(Vec(st.size(), 0.0));
                if(t == 1) go(sparse_state_vector<double>(st.size()));
                if(t == 2) {
                  Eigen::VectorXd e = Eigen::VectorXd::Zero(st.size());
                  go(e);
                }
                cx.validated();
                cx.state(mc::hstr(mc::vec_str(d)));
              });
}
