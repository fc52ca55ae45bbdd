// C01: normal ordering is faithful
#include "ref.hpp"
#include <numeric>
using namespace libcommute;
using namespace ref;

static void check_word(mc::Ctx& cx, std::vector<G> const& w) {
  using E = expression<double, int>;
  Sites L;
  for(auto const& g : w)
    L.add(g);
  // Route 1: left fold
  E e(1.0);
  for(auto const& g : w) {
    e = e * make_expr<double>(g);
    cx.trans();
  }
  // Route 2: a single monomial normalised in one go
  std::vector<std::shared_ptr<const generator<int>>> gens;
  for(auto const& g : w)
    gens.push_back(make_gen(g));
  E e2(1.0, monomial<int>(gens));
  // Route 3: right fold with compound assignment
  E e3(1.0);
  for(auto it = w.rbegin(); it != w.rend(); ++it) {
    E t = make_expr<double>(*it);
    t *= e3;
    e3 = t;
  }
  cx.trans(1 + w.size());
  Poly<double> p = decode(e, int_site()), p2 = decode(e2, int_site()), p3 = decode(e3, int_site());
  cx.state(hash_poly(p));
  Poly<double> orig{{1.0, w}};
  for(uint64_t s : configs(L, boson_degree(w))) {
    auto r = column(L, orig, s);
    auto c1 = column(L, p, s);
    MC_CHECK(r == c1, "left fold acts differently on ", std::hex, s, ": ", col_str(c1), "vs ", col_str(r), " expr ", poly_str(p));
    auto c2 = column(L, p2, s);
    MC_CHECK(r == c2, "monomial construction acts differently on ", std::hex, s, ": ", col_str(c2), "vs ", col_str(r), " expr ", poly_str(p2));
    auto c3 = column(L, p3, s);
    MC_CHECK(r == c3, "right fold acts differently on ", std::hex, s, ": ", col_str(c3), "vs ", col_str(r), " expr ", poly_str(p3));
  }
  cx.validated(3);
}

static void all_words(mc::Ctx& cx, std::vector<G> const& alpha, int lo, int hi) {
  cx.bound(mc::str("all words of length ", lo, "..", hi, " over ", word_str(alpha)));
  mc::words(int(alpha.size()), lo, hi, [&](std::vector<int> const& w) {
    if(!cx.mine_next()) {
      ++cx.next_idx_;
      return;
    }
    std::vector<G> g;
    for(int i : w)
      g.push_back(alpha[i]);
    cx.test([&] { return word_str(g); }, [&] { check_word(cx, g); });
  });
}

static G f(int d, int i) { return {FERMION, d, i, 0}; }
static G b(int d, int i) { return {BOSON, d, i, 0}; }
static G s(int c, int m, int i) { return {SPIN, c, i, m}; }

FAMILY(a_fermion) {
  all_words(cx, {f(1, 0), f(0, 0), f(1, 1), f(0, 1)}, 0, cx.pick(6, 8));
  all_words(cx, {f(1, 0), f(0, 0), f(1, 1), f(0, 1), f(1, 2), f(0, 2)}, 3, cx.pick(5, 7));
  all_words(cx, {f(1, 0), f(0, 0), f(1, 1), f(0, 1), f(1, 2), f(0, 2), f(1, 3), f(0, 3)}, 4, cx.pick(4, 6));
}
FAMILY(b_boson) {
  all_words(cx, {b(1, 0), b(0, 0)}, 0, cx.pick(9, 11));
  all_words(cx, {b(1, 0), b(0, 0), b(1, 1), b(0, 1)}, 2, cx.pick(6, 8));
  all_words(cx, {b(1, 0), b(0, 0), b(1, 1), b(0, 1), b(1, 2), b(0, 2)}, 3, cx.pick(4, 6));
}
FAMILY(c_spin_half) {
  all_words(cx, {s(0, 2, 0), s(1, 2, 0), s(2, 2, 0)}, 0, cx.pick(7, 10));
  all_words(cx, {s(0, 2, 0), s(1, 2, 0), s(2, 2, 0), s(0, 2, 1), s(1, 2, 1), s(2, 2, 1)}, 2, cx.pick(5, 7));
}
FAMILY(d_spin_higher) {
  for(int m = 3; m <= 6; ++m)
    all_words(cx, {s(0, m, 0), s(1, m, 0), s(2, m, 0)}, 0, cx.pick(6, 9));
  all_words(cx, {s(0, 7, 0), s(1, 7, 0), s(2, 7, 0)}, 2, cx.pick(4, 7));
  all_words(cx, {s(0, 3, 0), s(1, 3, 0), s(2, 3, 0), s(0, 3, 1), s(1, 3, 1), s(2, 3, 1)}, 2, cx.pick(4, 6));
  // same index, different multiplicities commute
  all_words(cx, {s(0, 2, 0), s(1, 2, 0), s(2, 2, 0), s(0, 3, 0), s(1, 3, 0), s(2, 3, 0), s(0, 4, 0), s(1, 4, 0), s(2, 4, 0)}, 2, cx.pick(4, 5));
}
FAMILY(e_mixed) {
  all_words(cx,
            {f(1, 0), f(0, 0), f(1, 1), f(0, 1), b(1, 0), b(0, 0), b(1, 1), s(0, 2, 0), s(1, 2, 0), s(2, 2, 0), s(0, 3, 0), s(1, 3, 0), s(2, 3, 0)},
            2,
            cx.pick(4, 5));
}
// Long words with high powers: blocks g^i h^j g^k h^l
FAMILY(f_powers) {
  std::vector<std::pair<G, G>> pairs = {{b(1, 0), b(0, 0)}, {b(0, 0), b(1, 0)}};
  int P = cx.pick(4, 5);
  for(int m = 2; m <= 7; ++m)
    for(int i = 0; i < 3; ++i)
      for(int j = 0; j < 3; ++j)
        if(i != j) pairs.push_back({s(i, m, 0), s(j, m, 0)});
  cx.bound(mc::str("all blocks g^i h^j g^k h^l, exponents 0..", P, " over ", pairs.size(), " pairs of generators"));
  for(auto const& pr : pairs)
    mc::tuples({P + 1, P + 1, P + 1, P - 1}, [&](std::vector<int> const& k) {
      if(k[0] + k[1] + k[2] + k[3] > cx.pick(9, 11)) return;
      std::vector<G> w;
      for(int i = 0; i < 4; ++i)
        w.insert(w.end(), k[i], i % 2 ? pr.second : pr.first);
      cx.test([&] { return word_str(w); }, [&] { check_word(cx, w); });
    });
  // pure powers, alone and embedded between neighbours that sort before/after
  for(int m = 2; m <= 9; ++m)
    for(int c = 0; c < 3; ++c)
      for(int p = 1; p <= 12; ++p) {
        std::vector<G> w(p, s(c, m, 0));
        cx.test([&] { return word_str(w); }, [&] { check_word(cx, w); });
        std::vector<G> w2 = w;
        w2.insert(w2.begin(), s(0, 2, 1));
        w2.push_back(s(1, 8, 0));
        w2.push_back(b(1, 0));
        cx.test([&] { return word_str(w2); }, [&] { check_word(cx, w2); });
      }
}
// Sites: the representation above has room for 16 fermionic sites
FAMILY(g_periodic_words) {
  std::vector<std::pair<std::vector<G>, int>> sets = {
      {{f(1, 0), f(0, 0), f(1, 1), f(0, 1)}, cx.pick(24, 40)},
      {{s(0, 2, 0), s(1, 2, 0), s(2, 2, 0), s(2, 2, 1)}, cx.pick(24, 40)},
      {{b(1, 0), b(0, 0), b(1, 1)}, cx.pick(10, 12)},
      {{s(0, 3, 0), s(1, 3, 0), s(2, 3, 0)}, cx.pick(10, 12)},
      {{f(1, 0), f(0, 0), b(1, 0), b(0, 0), s(2, 2, 0)}, cx.pick(10, 12)},
  };
  for(auto const& p : sets) {
    cx.bound(mc::str("all words of length 1..3 over ", word_str(p.first), " repeated to every length up to ", p.second));
    mc::words(int(p.first.size()), 1, 3, [&](std::vector<int> const& w) {
      for(int len = int(w.size()) + 1; len <= p.second; ++len) {
        if(len > 12 && len % 4 > 1) continue;
        std::vector<G> g;
        for(int i = 0; i < len; ++i)
          g.push_back(p.first[w[i % w.size()]]);
        cx.test([&] { return word_str(g); }, [&] { check_word(cx, g); });
      }
    });
  }
}
// Many different generators: products of anticommuting and commuting
// generators that do not contract have one term, with the sign of the
// permutation of the fermionic factors
static void check_permuted(mc::Ctx& cx, std::vector<G> const& sorted, std::vector<int> const& perm) {
  using E = expression<double, int>;
  double sign = 1;
  for(std::size_t i = 0; i < perm.size(); ++i)
    for(std::size_t j = 0; j < i; ++j)
      if(perm[j] > perm[i] && sorted[perm[i]].alg == FERMION && sorted[perm[j]].alg == FERMION) sign = -sign;
  E e(1.0), right(1.0);
  std::vector<std::shared_ptr<const generator<int>>> gens;
  for(int k : perm) {
    e *= make_expr<double>(sorted[k]);
    gens.push_back(make_gen(sorted[k]));
  }
  for(std::size_t i = perm.size(); i-- > 0;)
    right = make_expr<double>(sorted[perm[i]]) * right;
  E halves = E(1.0, monomial<int>(std::vector<std::shared_ptr<const generator<int>>>(gens.begin(), gens.begin() + gens.size() / 2))) * E(1.0, monomial<int>(std::vector<std::shared_ptr<const generator<int>>>(gens.begin() + gens.size() / 2, gens.end())));
  int route = 0;
  for(auto const& x : {e, E(1.0, monomial<int>(gens)), right, halves}) {
    ++route;
    MC_CHECK(x.size() == 1, "route ", route, ": ", x.size(), " terms: ", x);
    auto const& t = *x.get_monomials().begin();
    MC_CHECK(decode(t.first, int_site()) == sorted && t.second == sign, "route ", route, ": got ", x, " expected ", sign, " times ", word_str(sorted));
  }
  cx.trans(perm.size() * 2);
  cx.validated(4);
  cx.state(mc::hcomb(mc::hstr(word_str(sorted)), sign > 0));
}
FAMILY(h_permutations) {
  int n = cx.pick(7, 8);
  std::vector<std::vector<G>> sets = {
      {f(1, 0), f(1, 1), f(1, 2), f(1, 3), f(1, 4), f(1, 5), f(1, 6), f(1, 7)},
      {f(1, 0), f(1, 2), f(1, 7), f(0, 11), f(0, 9), f(0, 5), f(0, 3), f(0, 1)},
      {f(1, -3), f(1, 2), f(0, 5), f(0, 1), b(1, 0), b(1, 0), b(0, 3), s(0, 2, 0)},
      {f(1, 0), f(0, 3), f(0, 2), b(0, 0), s(0, 2, 1), s(1, 2, 2), s(0, 3, 1), s(2, 5, 0)},
  };
  cx.bound(mc::str("all orders of ", n, " factors that do not contract, ", sets.size(), " sets (fermions; with bosons and spins); 4 ways to multiply"));
  for(auto set : sets) {
    set.resize(n);
    std::vector<int> p(n);
    std::iota(p.begin(), p.end(), 0);
    do {
      cx.test([&] { return mc::str("order ", mc::vec_str(p), " of ", word_str(set)); }, [&] { check_permuted(cx, set, p); });
    } while(std::next_permutation(p.begin(), p.end()));
  }
}
FAMILY(i_many_sites) {
  std::vector<int> ns = cx.thorough() ? std::vector<int>{9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129} : std::vector<int>{9, 16, 17, 32, 33, 64, 65};
  cx.bound(mc::str("products of ", mc::vec_str(ns), " different fermions (creation, annihilation and mixed; also with a boson or spin every third factor), every rotation of 4 arrangements; site numbers with steps 1 and 1000"));
  for(int n : ns)
    for(int kind = 0; kind < 4; ++kind)
      for(int step : {1, 1000})
        for(int arr = 0; arr < 4; ++arr)
          for(int rot = 0; rot < n; rot += (n > 20 ? n / 8 : 1))
            cx.test([&] { return mc::str(n, " factors, kind ", kind, ", step ", step, ", arrangement ", arr, ", rotation ", rot); },
                    [&] {
                      std::vector<G> cr, an, bo, sp;
                      for(int i = 0; i < n; ++i) {
                        if(kind == 3 && i % 6 == 2) bo.push_back(b(1, i * step));
                        else if(kind == 3 && i % 6 == 5)
                          sp.push_back(s(0, 3, i * step));
                        else if(kind == 0 || (kind >= 2 && i % 2))
                          cr.push_back(f(1, i * step));
                        else
                          an.push_back(f(0, i * step));
                      }
                      std::vector<G> w = cr;
                      w.insert(w.end(), an.rbegin(), an.rend());
                      w.insert(w.end(), bo.begin(), bo.end());
                      w.insert(w.end(), sp.begin(), sp.end());
                      std::vector<int> p(n);
                      std::iota(p.begin(), p.end(), 0);
                      if(arr == 1) std::reverse(p.begin(), p.end());
                      if(arr == 2) std::stable_sort(p.begin(), p.end(), [](int x, int y) { return x % 2 < y % 2; });
                      if(arr == 3) std::stable_sort(p.begin(), p.end(), [](int x, int y) { return x * 7 % 16 < y * 7 % 16; });
                      std::rotate(p.begin(), p.begin() + rot, p.end());
                      check_permuted(cx, w, p);
                    });
}
