// C22: mapped basis views and basis mappers translate indices exactly
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
#include "uservec.hpp"
using namespace refop;
using Vec = std::vector<double>;
using Map = std::unordered_map<sv_index_type, sv_index_type>;

static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }

// --- mappers built from lists ------------------------------------------------------------------
static void check_mapper(basis_mapper const& m, Map const& ref, std::string const& w) {
  MC_CHECK(m.size() == ref.size(), w, ": size() = ", m.size(), " expected ", ref.size());
  MC_CHECK(m.map() == ref, w, ": map()");
  Map inv;
  for(auto const& p : ref)
    inv[p.second] = p.first;
  MC_CHECK(m.inverse_map() == inv, w, ": inverse_map()");
}
FAMILY(lists) {
  int D = 6, L = 6;
  cx.bound("all 1957 lists without repetition of states 0..5 (any order), plus the same lists shifted to large indices; views over vectors of 4 types (std, sparse, Eigen, user-defined), reading, writing, iteration, refusal of every unmapped index, const and owning views");
  for(uint64_t shift : {uint64_t(0), uint64_t(1) << 40})
    mc::words(D, 0, L, [&](std::vector<int> const& w) {
      for(std::size_t i = 0; i < w.size(); ++i)
        for(std::size_t j = 0; j < i; ++j)
          if(w[i] == w[j]) return;
      cx.test([&] { return mc::str(mc::vec_str(w), " shift ", shift); },
              [&] {
                std::vector<sv_index_type> list;
                Map ref;
                for(std::size_t i = 0; i < w.size(); ++i) {
                  list.push_back(shift + w[i]);
                  ref[shift + w[i]] = i;
                }
                basis_mapper mapper(list);
                check_mapper(mapper, ref, "mapper");
                std::size_t n = w.size();
                auto go = [&](auto sv, char const* type) {
                  std::string t = type;
                  Vec model(n, 0);
                  for(std::size_t i = 0; i < n; ++i) {
                    double x = i == 1 ? 0 : double(i) + 1;
                    update_add_element(sv, i, x);
                    model[i] = x;
                  }
                  auto csv = sv;
                  auto view = mapper.make_view(sv);
                  auto cview = mapper.make_const_view(sv);
                  auto const own = mapper.make_const_view(decltype(sv)(sv));
                  auto own2 = mapper.make_view(decltype(sv)(sv));
                  auto observe = [&](auto const& v, Vec const& a, char const* how) {
                    std::map<uint64_t, double> seen, ex;
                    foreach(v, [&](sv_index_type k, double x) { MC_CHECK(seen.emplace(k, x).second, t, ": ", how, " foreach() visited ", k, " twice"); });
                    for(std::size_t i = 0; i < n; ++i) {
                      if(a[i] != 0) ex[list[i]] = a[i];
                      MC_CHECK(get_element(v, list[i]) == a[i], t, ": ", how, " element ", list[i]);
                    }
                    MC_CHECK(seen == ex, t, ": ", how, " foreach()");
                    for(uint64_t k = 0; k <= uint64_t(D); ++k)
                      if(!ref.count(shift + k)) mc::expect_throw<std::out_of_range>([&] { (void)get_element(v, shift + k); }, mc::str(t, ": ", how, " reading unmapped ", shift + k));
                    if(shift) mc::expect_throw<std::out_of_range>([&] { (void)get_element(v, 0); }, mc::str(t, ": ", how, " reading unmapped 0"));
                  };
                  observe(view, model, "view");
                  observe(cview, model, "const view");
                  observe(own, model, "owning const view");
                  observe(own2, model, "owning view");
                  Vec m2 = model;
                  for(std::size_t i = 0; i < n; ++i) {
                    update_add_element(view, list[i], -double(i));
                    model[i] -= double(i);
                    int two = 2;
                    update_add_element(own2, list[i], two);
                    m2[i] += 2;
                  }
                  for(uint64_t k = 0; k <= uint64_t(D); ++k)
                    if(!ref.count(shift + k)) {
                      mc::expect_throw<std::out_of_range>([&] { update_add_element(view, shift + k, 1.0); }, mc::str(t, ": writing unmapped ", shift + k));
                      mc::expect_throw<std::out_of_range>([&] { update_add_element(own2, shift + k, 1.0); }, mc::str(t, ": writing unmapped ", shift + k));
                    }
                  observe(view, model, "view after writing");
                  observe(cview, model, "const view after writing");
                  observe(own2, m2, "owning view after writing");
                  for(std::size_t i = 0; i < n; ++i) {
                    MC_CHECK(get_element(sv, i) == model[i], t, ": stored element ", i);
                    MC_CHECK(get_element(csv, i) == (i == 1 ? 0 : double(i) + 1), t, ": another vector changed");
                  }
                  set_zeros(view);
                  observe(view, Vec(n, 0), "zeroed view");
                  for(std::size_t i = 0; i < n; ++i)
                    MC_CHECK(get_element(sv, i) == 0, t, ": set_zeros()");
                  observe(own2, m2, "owning view after zeroing another");
                };
                go(Vec(n, 0), "std::vector");
                go(sparse_state_vector<double>(n), "sparse");
                go(Eigen::VectorXd(Eigen::VectorXd::Zero(n)), "Eigen");
                go(user::list_vector<double>(n), "user");
                cx.trans(3 * (n + 1));
                cx.validated(3);
                uint64_t h = shift;
                for(int x : w)
                  h = mc::hcomb(h, x);
                cx.state(h);
              });
    });
}
// a view may be used with any map, also one that does not cover the vector
FAMILY(partial_maps) {
  cx.bound("all injective maps from up to 3 of the indices {0,1,5,2^33} to positions of a vector of size 4: histories of writes of length <= 3 through the view leave other positions alone");
  std::vector<uint64_t> idx{0, 1, 5, uint64_t(1) << 33};
  mc::words(5, 4, 4, [&](std::vector<int> const& t) { // t[i] = position of idx[i], 4 = unmapped
    for(int i = 0; i < 4; ++i)
      for(int j = 0; j < i; ++j)
        if(t[i] == t[j] && t[i] != 4) return;
    mc::words(4, 0, 3, [&](std::vector<int> const& w) {
      cx.test([&] { return mc::str(mc::vec_str(t), " ", mc::vec_str(w)); },
              [&] {
                Map m;
                for(int i = 0; i < 4; ++i)
                  if(t[i] != 4) m[idx[i]] = t[i];
                Vec v{10, 20, 30, 40}, model = v;
                mapped_basis_view<Vec> view(v, m);
                mapped_basis_view<Vec const> cview(v, m);
                for(std::size_t k = 0; k < w.size(); ++k) {
                  int o = w[k];
                  double d = k == 1 ? -model[t[o] % 4] : 1.0 + k;
                  if(t[o] == 4) mc::expect_throw<std::out_of_range>([&] { update_add_element(view, idx[o], d); }, "writing an unmapped index");
                  else {
                    update_add_element(view, idx[o], d);
                    model[t[o]] += d;
                  }
                  MC_CHECK(v == model, "vector ", mc::vec_str(v), " expected ", mc::vec_str(model));
                  std::map<uint64_t, double> seen, ex;
                  foreach(cview, [&](sv_index_type n, double x) { seen[n] += x; });
                  for(int i = 0; i < 4; ++i)
                    if(t[i] != 4 && model[t[i]] != 0) ex[idx[i]] = model[t[i]];
                  MC_CHECK(seen == ex, "foreach()");
                  cx.trans();
                }
                cx.validated();
                uint64_t h = 1;
                for(double x : model)
                  h = mc::hcomb(h, mc::hdbl(x));
                cx.state(h);
              });
    });
  });
}
// --- mappers built from operators ------------------------------------------------------------------
static std::vector<std::vector<ES>> const& op_spaces() {
  static std::vector<std::vector<ES>> s{{{0, 2, 0}, {0, 2, 1}}, {{1, 3, 0}, {0, 2, 0}}, {{2, 2, 0}, {2, 3, 0}}, {{1, 4, 0}}};
  return s;
}
static std::vector<Op> gens(std::vector<ES> const& set) {
  std::vector<Op> g;
  for(auto const& e : set) {
    if(e.kind == 0) {
      g.push_back(F(0, e.idx));
      g.push_back(F(1, e.idx));
    } else if(e.kind == 1) {
      g.push_back(B(0, e.idx));
      g.push_back(B(1, e.idx));
    } else
      for(int c = 0; c < 3; ++c)
        g.push_back(S(c, e.par, e.idx));
  }
  return g;
}
static std::set<uint64_t> support(Col const& c) {
  std::set<uint64_t> s;
  for(auto const& p : c)
    if(std::abs(p.second) > 5e-14) s.insert(p.first);
  return s;
}
static void check_contents(basis_mapper const& m, std::set<uint64_t> const& ref, std::string const& w) {
  std::set<uint64_t> got, vals;
  for(auto const& p : m.map()) {
    got.insert(p.first);
    vals.insert(p.second);
  }
  if(got != ref) {
    std::vector<uint64_t> a(got.begin(), got.end()), b(ref.begin(), ref.end());
    mc::fail(w + ": states " + mc::vec_str(a) + " expected " + mc::vec_str(b));
  }
  MC_CHECK(vals.size() == ref.size() && (vals.empty() || *vals.rbegin() == ref.size() - 1), w, ": positions are not 0..size-1");
  MC_CHECK(m.size() == ref.size(), w, ": size() = ", m.size());
  auto inv = m.inverse_map();
  for(auto const& p : m.map())
    MC_CHECK(inv.count(p.second) && inv[p.second] == p.first, w, ": inverse_map()");
  MC_CHECK(inv.size() == ref.size(), w, ": size of inverse_map()");
}
template <typename Sc> static void from_operator(mc::Ctx& cx, int L, Sc c2) {
  for(auto const& set : op_spaces()) {
    auto g = gens(set);
    std::vector<Word> ws;
    mc::words(int(g.size()), 0, L, [&](std::vector<int> const& w) {
      Word x;
      for(int i : w)
        x.push_back(g[i]);
      ws.push_back(x);
    });
    for(std::size_t a = 0; a < ws.size(); ++a)
      for(std::size_t b = 0; b < ws.size(); ++b)
        for(int sg = 0; sg < 3; ++sg)
          cx.test([&] { return mc::str(set_str(set), " ", word_str(ws[a]), " + (", sg, ")*", word_str(ws[b])); },
                  [&] {
                    HS hs = build(set);
                    Layout l = layout(set);
                    Sc c = sg == 0 ? Sc(1) : sg == 1 ? Sc(-1) : c2;
                    auto e = to_expr<Sc>(ws[a]) + c * to_expr<Sc>(ws[b]);
                    auto op = make_loperator(e, hs);
                    auto s = support(column(l, to_sum(e), 0));
                    basis_mapper m(op, hs);
                    check_contents(m, s, "O|0>");
                    cx.trans();
                    cx.validated();
                    uint64_t h = mc::hcomb(set.size(), set[0].kind);
                    for(auto x : s)
                      h = mc::hcomb(h, x);
                    cx.state(h);
                  });
  }
}
FAMILY(operator_real) {
  int L = cx.pick(2, 3);
  cx.bound(mc::str("all operators w1 + c*w2 (c = 1,-1,0.5) with words up to length ", L, " on 4 spaces"));
  from_operator<double>(cx, L, 0.5);
}
FAMILY(operator_complex) {
  cx.bound("all complex operators w1 + c*w2 (c = 1,-1,i) with words up to length 2 on 4 spaces");
  from_operator<cd>(cx, 2, cd(0, 1));
}
// --- compositions -----------------------------------------------------------------------------------
struct CCase {
  std::vector<ES> set;
  std::vector<Sum> ops;
};
static std::vector<CCase> const& comp_cases() {
  static std::vector<CCase> c{
      {{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}},
       {{{1, {F(1, 0)}}}, {{1, {F(1, 1)}}}, {{1, {F(1, 2)}}}, {{1, {F(1, 1), F(0, 0)}}}, {{1, {F(1, 0)}}, {1, {F(1, 1)}}}, {{1, {F(1, 2), F(0, 1)}}, {-1, {}}}, {{1, {F(0, 0)}}}}},
      {{{1, 4, 0}, {1, 2, 1}}, {{{1, {B(1, 0)}}}, {{1, {B(1, 1)}}}, {{1, {B(0, 0)}}}, {{1, {B(1, 0), B(1, 0)}}}, {{1, {B(1, 1), B(0, 0)}}}, {{1, {B(1, 0)}}, {1, {B(0, 0)}}}}},
      {{{2, 3, 0}, {2, 2, 1}}, {{{1, {S(0, 3, 0)}}}, {{1, {S(0, 2, 1)}}}, {{1, {S(1, 3, 0)}}}, {{1, {S(0, 2, 1), S(1, 3, 0)}}}, {{1, {S(2, 2, 1)}}, {0.5, {}}}}},
      {{{0, 2, 0}, {1, 3, 0}}, {{{1, {F(1, 0)}}}, {{1, {B(1, 0)}}}, {{1, {F(0, 0), B(1, 0)}}}, {{1, {F(1, 0), B(0, 0)}}}, {{1, {B(0, 0)}}, {2, {F(1, 0), F(0, 0)}}}}},
      // operators that spread over most or all of the space
      {{{1, 4, 0}}, {{{1, {B(1, 0)}}, {1, {B(0, 0)}}, {1, {B(1, 0), B(1, 0)}}}, {{1, {}}, {1, {B(1, 0)}}, {1, {B(1, 0), B(1, 0), B(1, 0)}}}, {{1, {B(1, 0)}}, {-1, {B(0, 0)}}}, {{1, {B(1, 0), B(0, 0)}}, {-1, {}}}}},
      {{{1, 3, 0}, {2, 2, 0}}, {{{1, {B(1, 0)}}, {1, {B(0, 0)}}, {1, {S(0, 2, 0)}}}, {{1, {}}, {1, {S(0, 2, 0)}}, {2, {B(1, 0), S(0, 2, 0)}}}, {{1, {B(1, 0)}}, {1, {S(1, 2, 0)}}, {0.5, {}}}}},
      {{{0, 2, 0}, {0, 2, 1}}, {{{1, {F(1, 0)}}, {1, {F(1, 1)}}, {1, {}}}, {{1, {F(1, 0), F(1, 1)}}, {1, {F(0, 0)}}, {1, {F(0, 1)}}, {1, {F(1, 0)}}}, {{1, {F(1, 0), F(0, 0)}}, {-1, {F(1, 1), F(0, 1)}}}}},
      // small amplitudes, far above the threshold of zero
      {{{1, 6, 0}, {0, 2, 0}}, {{{3e-3, {B(1, 0)}}}, {{3e-3, {B(1, 0)}}, {1e3, {F(1, 0)}}}, {{3e-3, {F(1, 0)}}, {1, {B(0, 0)}}}, {{1e-2, {}}, {3e-3, {B(1, 0), B(1, 0)}}}}}};
  return c;
}
template <typename Sc> static expression<Sc, int> make_sum(Sum const& s) {
  expression<Sc, int> e;
  for(auto const& t : s)
    e += Sc(t.first.real()) * to_expr<Sc>(t.second);
  return e;
}
template <typename Sc> static void compositions(mc::Ctx& cx, int L, int maxN) {
  for(auto const& c : comp_cases())
    for(int N = 0; N <= maxN; ++N)
      mc::words(int(c.ops.size()), N == 0 ? 0 : 1, L, [&](std::vector<int> const& w) {
        cx.test([&] { return mc::str(set_str(c.set), " N=", N, " list ", mc::vec_str(w)); },
                [&] {
                  HS hs = build(c.set);
                  Layout l = layout(c.set);
                  std::vector<loperator<Sc, fermion, boson, spin>> ops;
                  std::vector<Sum> sums;
                  for(int i : w) {
                    auto e = make_sum<Sc>(c.ops[i]);
                    ops.push_back(loperator<Sc, fermion, boson, spin>(e, hs));
                    sums.push_back(to_sum(e));
                  }
                  // every composition n_1 + ... + n_M = N, rightmost operator acts first
                  std::set<uint64_t> ref;
                  std::function<void(int, int, Col const&)> rec = [&](int m, int left, Col const& st) {
                    if(m < 0) {
                      if(left == 0)
                        for(auto x : support(st))
                          ref.insert(x);
                      return;
                    }
                    Col cur = st;
                    for(int n = 0; n <= left; ++n) {
                      rec(m - 1, left - n, cur);
                      Col nx;
                      for(auto const& p : cur)
                        for(auto const& q : column(l, sums[m], p.first))
                          nx[q.first] += p.second * q.second;
                      for(auto it = nx.begin(); it != nx.end();)
                        it = std::abs(it->second) < 5e-14 ? nx.erase(it) : std::next(it);
                      cur = nx;
                      cx.trans();
                    }
                  };
                  Col vac;
                  vac[0] = 1;
                  rec(int(w.size()) - 1, N, vac);
                  basis_mapper m(ops, hs, N);
                  check_contents(m, ref, "compositions");
                  cx.validated();
                  uint64_t h = mc::hcomb(c.set.size(), c.set[0].kind);
                  for(auto x : ref)
                    h = mc::hcomb(h, x);
                  cx.state(h);
                });
      });
}
FAMILY(compositions_real) {
  int L = cx.pick(3, 4), N = cx.pick(4, 5);
  cx.bound(mc::str("all lists of up to ", L, " of 5..7 operators (creators, annihilators, hops, sums, not commuting) on 8 spaces (among them operators that spread over the whole space and operators with coefficients down to 3e-3), N = 0..", N, " (with repetition, any order)"));
  compositions<double>(cx, L, N);
}
FAMILY(compositions_complex) {
  cx.bound("same for complex operators, up to 2 operators, N = 0..3");
  compositions<cd>(cx, 2, 3);
}
// --- operators within invariant subspaces ---------------------------------------------------------
template <typename Sc> static void blocks(mc::Ctx& cx, bool order) {
  std::vector<std::pair<std::vector<ES>, std::vector<Sum>>> cs{
      {{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}},
       {{{1, {F(1, 0), F(0, 1)}}, {1, {F(1, 1), F(0, 0)}}, {2, {F(1, 2), F(0, 2)}}},
        {{1, {F(1, 0), F(1, 1)}}, {-1, {F(0, 0), F(0, 1)}}},
        {{1, {F(1, 0), F(0, 2)}}, {1, {F(1, 1), F(0, 2)}}}}},
      {{{1, 3, 0}, {1, 3, 1}}, {{{1, {B(1, 0), B(0, 1)}}, {1, {B(1, 1), B(0, 0)}}, {1, {B(1, 0), B(0, 0)}}}, {{1, {B(1, 0), B(1, 0)}}, {1, {B(0, 0), B(0, 0)}}}}},
      {{{2, 2, 0}, {2, 2, 1}, {2, 3, 0}}, {{{1, {S(0, 2, 0), S(1, 2, 1)}}, {1, {S(1, 2, 0), S(0, 2, 1)}}, {2, {S(2, 2, 0), S(2, 2, 1)}}}, {{1, {S(0, 3, 0), S(1, 2, 1)}}, {3, {S(2, 3, 0)}}}}}};
  for(std::size_t k = 0; k < cs.size(); ++k)
    for(std::size_t o = 0; o < cs[k].second.size(); ++o)
      for(uint64_t start = 0; start < layout(cs[k].first).dim; ++start)
        for(int rot = 0; rot < (order ? 4 : 1); ++rot)
          cx.test([&] { return mc::str(set_str(cs[k].first), " operator ", o, " from valid state ", start, " order ", rot); },
                  [&] {
                    auto const& set = cs[k].first;
                    HS hs = build(set);
                    Layout l = layout(set);
                    auto e = make_sum<Sc>(cs[k].second[o]);
                    Sum s = to_sum(e);
                    auto op = make_loperator(e, hs);
                    // smallest set of states closed under O that contains the start
                    std::vector<uint64_t> sub{states(l)[start]};
                    for(std::size_t i = 0; i < sub.size(); ++i)
                      for(auto x : support(column(l, s, sub[i])))
                        if(std::find(sub.begin(), sub.end(), x) == sub.end()) sub.push_back(x);
                    std::sort(sub.begin(), sub.end());
                    if(rot == 1) std::reverse(sub.begin(), sub.end());
                    if(rot >= 2) std::rotate(sub.begin(), sub.begin() + sub.size() * (rot - 1) / 3, sub.end());
                    std::vector<sv_index_type> list(sub.begin(), sub.end());
                    basis_mapper mapper(list);
                    std::size_t n = sub.size();
                    for(std::size_t i = 0; i < n; ++i) {
                      Col col = column(l, s, sub[i]);
                      std::vector<Sc> src(n, Sc(0)), dst(n, Sc(4));
                      sparse_state_vector<Sc> sp(n);
                      Eigen::Matrix<Sc, Eigen::Dynamic, 1> ev = Eigen::Matrix<Sc, Eigen::Dynamic, 1>::Constant(n, Sc(3));
                      src[i] = Sc(1);
                      auto sv = mapper.make_const_view(src);
                      auto dv = mapper.make_view(dst);
                      auto spv = mapper.make_view(sp);
                      auto evv = mapper.make_view(ev);
                      std::vector<Sc> fsrc(hs.vec_size(), Sc(0)), fdst(hs.vec_size(), Sc(1));
                      fsrc[sub[i]] = Sc(1);
                      op(sv, dv);
                      op(sv, spv);
                      op(fsrc, evv);
                      op(sv, fdst);
                      for(std::size_t j = 0; j < n; ++j) {
                        auto it = col.find(sub[j]);
                        cd ex = it == col.end() ? cd(0) : it->second;
                        MC_CHECK(mc::close(cd(dst[j]), ex), "<", sub[j], "|O|", sub[i], "> = ", cd(dst[j]), " expected ", ex);
                        MC_CHECK(mc::close(cd(get_element(sp, j)), ex), "sparse <", sub[j], "|O|", sub[i], "> = ", cd(get_element(sp, j)), " expected ", ex);
                        MC_CHECK(mc::close(cd(ev(j)), ex), "from a full vector <", sub[j], "|O|", sub[i], "> = ", cd(ev(j)), " expected ", ex);
                      }
                      check_col(l, fdst, col, sub[i], "to a full vector");
                      cx.trans(4);
                      cx.state(mc::hcomb(hash(col), k));
                    }
                    // a target outside of the map is refused
                    if(n > 1) {
                      std::vector<sv_index_type> part(list.begin(), list.begin() + 1);
                      bool leaves = false;
                      for(auto x : support(column(l, s, part[0])))
                        leaves = leaves || x != part[0];
                      basis_mapper pm(part);
                      std::vector<Sc> one(1, Sc(1)), d1(1, Sc(0));
                      auto a = pm.make_const_view(one);
                      auto b = pm.make_view(d1);
                      if(leaves) mc::expect_throw<std::out_of_range>([&] { op(a, b); }, "operator leaving the mapped subspace");
                      else
                        op(a, b);
                    }
                    cx.validated();
                  });
}
FAMILY(blocks_real) {
  cx.bound("7 operators on 3 spaces: every invariant subspace generated by one state, 4 orders of the list, every column; views of std::vector, sparse, Eigen and full vectors; refusal of targets outside of the map");
  blocks<double>(cx, true);
}
FAMILY(blocks_complex) {
  cx.bound("same with complex amplitudes");
  blocks<cd>(cx, true);
}

// Views named by their type, with the defaults of the template
FAMILY(default_arguments) {
  cx.bound("mapped_basis_view<V> and <V, true> refer to the vector they are given, <V, false> owns a copy, all mapped states of 3 maps (std, sparse, Eigen vectors)");
  std::vector<std::vector<sv_index_type>> maps{{5}, {7, 2, 9}, {0, 1, 2, 3, 8}};
  for(auto const& m : maps)
    for(int t = 0; t < 3; ++t)
      cx.test([&] { return mc::str(mc::vec_str(m), " vector type ", t); },
              [&] {
                Map map;
                for(std::size_t i = 0; i < m.size(); ++i)
                  map[m[i]] = i;
                auto go = [&](auto v) {
                  using V = decltype(v);
                  for(std::size_t i = 0; i < m.size(); ++i) {
                    mapped_basis_view<V> a(v, map);
                    mapped_basis_view<V, true> b(v, map);
                    mapped_basis_view<V, false> c(v, map);
                    update_add_element(a, m[i], 2.0);
                    MC_CHECK(get_element(v, i) == 2, "an update through mapped_basis_view<V> must reach the vector");
                    update_add_element(b, m[i], 3.0);
                    MC_CHECK(get_element(v, i) == 5 && get_element(a, m[i]) == 5 && get_element(b, m[i]) == 5, "two referring views of one vector");
                    update_add_element(c, m[i], 7.0);
                    MC_CHECK(get_element(v, i) == 5 && get_element(c, m[i]) == 7, "an owning view must leave the vector alone");
                    set_zeros(c);
                    MC_CHECK(get_element(v, i) == 5, "zeroing an owning view");
                    set_zeros(a);
                    MC_CHECK(get_element(v, i) == 0, "zeroing through a referring view");
                    cx.trans(5);
                  }
                };
                if(t == 0) go(Vec(m.size(), 0.0));
                if(t == 1) go(sparse_state_vector<double>(m.size()));
                if(t == 2) {
                  Eigen::VectorXd e = Eigen::VectorXd::Zero(m.size());
                  go(e);
                }
                cx.validated();
                cx.state(mc::hstr(mc::vec_str(m)));
              });
}

// --- large maps ------------------------------------------------------------------------------
static uint64_t pattern(int p, uint64_t i, uint64_t n) {
  switch(p) {
  case 0: return i;
  case 1: return 3 * (n - i);
  case 2: return i << 32;
  case 3: return i * 0x9E3779B97F4A7C15u;
  case 4: return (i & 1 ? i << 20 : i) + (uint64_t(1) << 62);
  default: return (i << 8) | (i >> 8 & 0xff);
  }
}
FAMILY(large_lists) {
  std::vector<int> ns{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000};
  if(cx.thorough()) ns.insert(ns.end(), {1024, 2048, 4097, 10000});
  cx.bound(mc::str("lists of 7 to ", ns.back(), " states in 5 patterns of indices (dense, descending, multiples of 2^32, scattered over 64 bits, close to 2^62): mapper, views over std, sparse, Eigen and user-defined vectors, every element read, written, iterated"));
  for(int n : ns)
    for(int p = 0; p < 5; ++p)
      for(int t = 0; t < 4; ++t) {
        if(t == 3 && n > 600) continue; // quadratic
        cx.test([&] { return mc::str(n, " states, pattern ", p, " vector type ", t); },
                [&] {
                  std::vector<sv_index_type> list;
                  Map ref;
                  for(int i = 0; i < n; ++i) {
                    list.push_back(pattern(p, i, n));
                    ref[list.back()] = i;
                  }
                  MC_CHECK(int(ref.size()) == n, "harness: repeated state");
                  basis_mapper m(list);
                  check_mapper(m, ref, "mapper");
                  auto go = [&](auto v) {
                    auto view = m.make_view(v);
                    auto cview = m.make_const_view(v);
                    auto own = m.make_view(decltype(v)(v));
                    for(int r = 0; r < 2; ++r)
                      for(int i = 0; i < n; ++i)
                        update_add_element(view, list[i], double(i % 11));
                    for(int i = 0; i < n; i += 2)
                      update_add_element(own, list[i], 1.0);
                    std::map<uint64_t, double> seen, cseen, oseen, ex, oex;
                    for(int i = 0; i < n; ++i) {
                      double x = 2 * (i % 11);
                      MC_CHECK(get_element(view, list[i]) == x && get_element(cview, list[i]) == x && get_element(v, i) == x, "element ", i, " of ", n);
                      MC_CHECK(get_element(own, list[i]) == (i % 2 ? 0 : 1), "element ", i, " of ", n, " in an owning view");
                      if(x != 0) ex[list[i]] = x;
                      if(i % 2 == 0) oex[list[i]] = 1;
                    }
                    foreach(view, [&](sv_index_type k, double x) { MC_CHECK(seen.emplace(k, x).second, "state ", k, " visited twice"); });
                    foreach(cview, [&](sv_index_type k, double x) { MC_CHECK(cseen.emplace(k, x).second, "state ", k, " visited twice"); });
                    foreach(own, [&](sv_index_type k, double x) { MC_CHECK(oseen.emplace(k, x).second, "state ", k, " visited twice"); });
                    MC_CHECK(seen == ex && cseen == ex && oseen == oex, "foreach() on ", n, " states");
                    for(uint64_t k : {uint64_t(1) << 61, uint64_t(1) << 63, list[0] ^ (uint64_t(1) << 60)})
                      if(!ref.count(k)) {
                        mc::expect_throw<std::out_of_range>([&] { (void)get_element(view, k); }, "reading an unmapped state");
                        mc::expect_throw<std::out_of_range>([&] { update_add_element(view, k, 1.0); }, "writing an unmapped state");
                      }
                    set_zeros(view);
                    foreach(view, [&](sv_index_type k, double) { mc::fail(mc::str("state ", k, " is not zero after set_zeros()")); });
                  };
                  if(t == 0) go(Vec(n, 0.0));
                  if(t == 1) go(sparse_state_vector<double>(n));
                  if(t == 2) {
                    Eigen::VectorXd e = Eigen::VectorXd::Zero(n);
                    go(e);
                  }
                  if(t == 3) go(user::list_vector<double>(n));
                  cx.trans(8 * n);
                  cx.validated();
                  cx.state(mc::hcomb(n, p));
                });
      }
}
// Compositions of many raising operators: the states with exactly N quanta
FAMILY(many_operators) {
  int M = cx.pick(9, 11);
  cx.bound(mc::str("compositions of N = 0..", M, " out of up to ", M, " raising operators (fermions; bosons of dimension 4; spins 1/2 and 1; mixtures), in 2 orders; one operator that reaches up to 2^", M, " states"));
  for(int k = 0; k < 4; ++k)
    for(int n = 1; n <= M; ++n)
      for(int N = 0; N <= n; ++N)
        for(int rev = 0; rev < 2; ++rev) {
          // the number of compositions grows as C(n + N - 1, N)
          double c = 1;
          for(int i = 1; i <= N; ++i)
            c *= double(n + i - 1) / i;
          if(c * N > cx.pick(6000, 40000)) continue;
          cx.test([&] { return mc::str("kind ", k, ", ", n, " operators, N=", N, " order ", rev); },
                  [&] {
                    std::vector<ES> set;
                    std::vector<expression<double, int>> raise;
                    for(int i = 0; i < n; ++i) {
                      int a = k == 3 ? i % 3 : k;
                      if(a == 0) set.push_back({0, 2, i}), raise.push_back(to_expr<double>({F(1, i)}));
                      if(a == 1) set.push_back({1, 4, i}), raise.push_back(to_expr<double>({B(1, i)}));
                      if(a == 2) {
                        uint64_t mult = 2 + i % 2;
                        set.push_back({2, mult, i}), raise.push_back(to_expr<double>({S(0, mult, i)}));
                      }
                    }
                    HS hs = build(set);
                    Layout l = layout(set);
                    std::vector<loperator<double, fermion, boson, spin>> ops;
                    for(auto const& e : raise)
                      ops.emplace_back(e, hs);
                    if(rev) std::reverse(ops.begin(), ops.end());
                    basis_mapper m(ops, hs, N);
                    // spaces come in the order fermions, bosons, spins; every quantum raises one of them by one
                    std::set<uint64_t> ref;
                    std::vector<uint64_t> occ(l.es.size(), 0);
                    std::function<void(std::size_t, int)> rec = [&](std::size_t i, int left) {
                      if(i == l.es.size()) {
                        if(left == 0) ref.insert(encode(l, occ));
                        return;
                      }
                      for(int q = 0; q <= left && uint64_t(q) < es_dim(l.es[i]); ++q) {
                        occ[i] = q;
                        rec(i + 1, left - q);
                      }
                      occ[i] = 0;
                    };
                    rec(0, N);
                    check_contents(m, ref, "compositions");
                    cx.trans(N);
                    cx.validated();
                    uint64_t h = ref.size();
                    for(auto x : ref)
                      h = mc::hcomb(h, x);
                    cx.state(h);
                  });
        }
  for(int n = 1; n <= M; ++n)
    cx.test([&] { return mc::str("product of (1 + c^+_i) over ", n, " modes"); },
            [&] {
              std::vector<ES> set;
              for(int i = 0; i < n; ++i)
                set.push_back({0, 2, i});
              HS hs = build(set);
              expression<double, int> e(1.0);
              for(int i = 0; i < n; ++i)
                e = e * (1.0 + to_expr<double>({F(1, i)}));
              basis_mapper m(make_loperator(e, hs), hs);
              std::set<uint64_t> ref;
              for(uint64_t s = 0; s < (uint64_t(1) << n); ++s)
                ref.insert(s);
              check_contents(m, ref, "O|0>");
              cx.trans();
              cx.validated();
              cx.state(mc::hcomb(n, 77));
            });
}
