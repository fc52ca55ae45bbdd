// C15, continued: monomials that act on many degrees of freedom at once, sums of many monomials
#include "refop.hpp"
using namespace refop;

static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }

// The ways a normally ordered monomial can act on one elementary space
static std::vector<Word> local(ES const& e, int powers) {
  if(e.kind == 0) return {{}, {F(1, e.idx)}, {F(0, e.idx)}, {F(1, e.idx), F(0, e.idx)}};
  if(e.kind == 1) {
    std::vector<Word> r;
    for(int p = 0; p <= powers; ++p)
      for(int q = 0; q <= powers; ++q) {
        Word w(p, B(1, e.idx));
        w.insert(w.end(), q, B(0, e.idx));
        r.push_back(w);
      }
    return r;
  }
  std::vector<Word> r{{}, {S(0, e.par, e.idx)}, {S(1, e.par, e.idx)}, {S(2, e.par, e.idx)}};
  if(e.par > 2) {
    r.push_back({S(0, e.par, e.idx), S(0, e.par, e.idx)});
    r.push_back({S(1, e.par, e.idx), S(2, e.par, e.idx)});
  }
  return r;
}
static void check(mc::Ctx& cx, std::vector<ES> const& set, HS const& hs, Layout const& l, std::vector<uint64_t> const& in, Word const& w) {
  expression<double, int> e = to_expr<double>(w);
  // the factors are in normal order per space and spaces of different algebras commute
  auto op = make_loperator(e, hs);
  uint64_t h = 3;
  for(uint64_t s : in) {
    Col col = column(l, {{1.0, w}}, s);
    sparse_state_vector<double> src(get_vec_size(hs)), dst(get_vec_size(hs));
    src[s] = 1;
    dst[in[0]] = 7;
    op(src, dst);
    check_col(l, dst, col, s, word_str(w) + " in " + set_str(set));
    h = mc::hcomb(h, hash(col));
  }
  cx.trans(in.size());
  cx.validated();
  cx.state(mc::hcomb(refhs::hash(l), h));
}
static void all_products(mc::Ctx& cx, std::vector<ES> const& set, int powers, int stride, std::string const& name) {
  std::vector<std::vector<Word>> loc;
  std::vector<int> sizes;
  uint64_t n = 1;
  for(auto const& e : set) {
    loc.push_back(local(e, powers));
    sizes.push_back(int(loc.back().size()));
    n *= loc.back().size();
  }
  cx.bound(mc::str(name, " ", set_str(set), ": all ", n, " products of one local operator per space", stride > 1 ? mc::str(" (every ", stride, "th)") : std::string(), ", on every basis state"));
  HS hs = build(set);
  Layout l = layout(set);
  auto in = states(l);
  uint64_t k = 0;
  mc::tuples(sizes, [&](std::vector<int> const& t) {
    if(k++ % stride) return;
    Word w;
    for(std::size_t i = 0; i < t.size(); ++i) {
      auto const& x = loc[i][t[i]];
      w.insert(w.end(), x.begin(), x.end());
    }
    cx.test([&] { return name + word_str(w); }, [&] { check(cx, set, hs, l, in, w); });
  });
}
FAMILY(many_modes) {
  auto nf = [](int n) {
    std::vector<ES> v;
    for(int i = 0; i < n; ++i)
      v.push_back({0, 2, i});
    return v;
  };
  auto nb = [](std::vector<int> d) {
    std::vector<ES> v;
    for(int i = 0; i < int(d.size()); ++i)
      v.push_back({1, uint64_t(d[i]), i});
    return v;
  };
  auto ns = [](std::vector<int> m) {
    std::vector<ES> v;
    for(int i = 0; i < int(m.size()); ++i)
      v.push_back({2, uint64_t(m[i]), i});
    return v;
  };
  auto cat = [](std::vector<ES> a, std::vector<ES> const& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
  };
  bool th = cx.thorough();
  all_products(cx, nb({3, 2, 3, 2}), 1, 1, "bosons");
  all_products(cx, nb({4, 3, 5}), 2, th ? 1 : 3, "bosons");
  all_products(cx, nb({2, 3, 2, 2, 2}), 1, th ? 1 : 5, "bosons");
  all_products(cx, nb({2, 2, 2, 2, 2, 3}), 1, th ? 3 : 41, "bosons");
  all_products(cx, ns({2, 2, 2, 2, 2}), 0, 1, "spins");
  all_products(cx, ns({2, 3, 2, 4, 2}), 0, th ? 1 : 5, "spins");
  all_products(cx, ns({2, 2, 2, 2, 2, 2, 2}), 0, th ? 1 : 29, "spins");
  all_products(cx, cat(cat(nf(2), nb({3, 2})), ns({2, 3})), 1, th ? 1 : 7, "mixed");
  all_products(cx, cat(cat(nf(3), nb({2})), ns({2, 2, 2})), 1, th ? 1 : 19, "mixed");
  all_products(cx, cat(nf(1), cat(nb({2, 2, 3}), ns({3, 2}))), 1, th ? 1 : 11, "mixed");
}
// One operator that consists of very many monomials
static std::vector<Word> words_of(std::vector<ES> const& set, int n) {
  // products of local operators of 1..4 spaces, by counting
  std::vector<std::vector<Word>> loc;
  for(auto const& e : set)
    loc.push_back(local(e, 1));
  std::vector<Word> r;
  for(int i = 0; int(r.size()) < n; ++i) {
    Word w;
    int x = i;
    for(std::size_t k = 0; k < set.size(); ++k) {
      // spread the choices over the spaces
      int c = (x + int(k) * (i / 3 + 1)) % int(loc[k].size() + 2);
      x = x / 2 + int(k);
      if(c < int(loc[k].size())) w.insert(w.end(), loc[k][c].begin(), loc[k][c].end());
    }
    r.push_back(w);
  }
  return r;
}
FAMILY(many_monomials) {
  std::vector<int> ns = cx.thorough() ? std::vector<int>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 513} : std::vector<int>{8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 257};
  std::vector<std::vector<ES>> sets{{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}, {0, 2, 4}, {0, 2, 5}},
                                    {{1, 3, 0}, {1, 2, 1}, {1, 5, 2}},
                                    {{2, 2, 0}, {2, 2, 1}, {2, 3, 2}, {2, 4, 3}},
                                    {{0, 2, 0}, {0, 2, 1}, {1, 3, 0}, {2, 2, 0}, {2, 3, 1}, {0, 2, 4}}};
  cx.bound(mc::str("4 spaces, sums of n monomials, n from ", mc::vec_str(ns), ": every column, over double, complex and (on a complex state) double"));
  for(auto const& set : sets)
    for(int n : ns)
      cx.test([&] { return set_str(set) + mc::str(n, " monomials"); },
              [&] {
                auto ws = words_of(set, n);
                HS hs = build(set);
                Layout l = layout(set);
                expression<double, int> e;
                expression<cd, int> ec;
                Sum sr, sc;
                for(int i = 0; i < n; ++i) {
                  double c = double(i % 7) - 2.5;
                  cd cc(double(i % 5) - 1.5, double(i % 3) - 1);
                  e += c * to_expr<double>(ws[i]);
                  ec += cc * to_expr<cd>(ws[i]);
                  sr.emplace_back(c, ws[i]);
                  sc.emplace_back(cc, ws[i]);
                }
                auto op = make_loperator(e, hs);
                auto opc = make_loperator(ec, hs);
                auto in = states(l);
                uint64_t h = 0;
                for(uint64_t s : in) {
                  Col col = column(l, sr, s), colc = column(l, sc, s);
                  std::vector<double> x(get_vec_size(hs)), y(get_vec_size(hs), 3.0);
                  std::vector<cd> xc(get_vec_size(hs)), yc(get_vec_size(hs), 3.0), zc(get_vec_size(hs), 3.0);
                  x[s] = 1;
                  xc[s] = 1;
                  op(x, y);
                  check_col(l, y, col, s, "real");
                  opc(xc, yc);
                  check_col(l, yc, colc, s, "complex");
                  op(xc, zc);
                  check_col(l, zc, col, s, "real on complex");
                  h = mc::hcomb(h, mc::hcomb(hash(col), hash(colc)));
                }
                // all basis states at once
                std::vector<double> x(get_vec_size(hs)), y;
                std::vector<double> ex(get_vec_size(hs));
                for(std::size_t i = 0; i < in.size(); ++i) {
                  x[in[i]] = 1 + double(i % 5);
                  for(auto const& p : column(l, sr, in[i]))
                    ex[p.first] += p.second.real() * x[in[i]];
                }
                y = op * x;
                for(std::size_t i = 0; i < ex.size(); ++i)
                  MC_CHECK(mc::close(y[i], ex[i], 1e-9), "dense state: amplitude ", i, " is ", y[i], " expected ", ex[i]);
                cx.trans(3 * in.size() + 1);
                cx.validated(4);
                cx.state(mc::hcomb(refhs::hash(l), h));
              });
}
