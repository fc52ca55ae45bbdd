// C30: the parts of the library built on the primitives give the reference
// results in every configuration
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
using namespace refop;
static int bits_of(uint64_t x) {
  int n = 0;
  for(; x; x >>= 1)
    n += int(x & 1);
  return n;
}
using Vec = std::vector<double>;

FAMILY(spaces) {
  std::vector<ES> pool{{0, 2, 0}, {0, 2, 4}, {1, 3, 0}, {1, 4, 1}, {1, 1, 2}, {1, 6, 3}, {2, 2, 0}, {2, 3, 1}, {2, 6, 2}, {11, 5, 0}};
  int k = cx.pick(4, 5);
  cx.bound(mc::str("all subsets of up to ", k, " of ", pool.size(), " elementary spaces: layout, enumeration, compressed view"));
  subsets(pool, k, [&](std::vector<ES> const& set) {
    if(set.empty()) return;
    cx.test([&] { return set_str(set); },
            [&] {
              Layout l = layout(set);
              HS hs = build(set);
              check(hs, set, pool, "queries");
              auto ref = states(l);
              std::vector<uint64_t> got;
              foreach(hs, [&](sv_index_type s) { got.push_back(s); });
              MC_CHECK(got == ref, "foreach(): ", mc::vec_str(got));
              Vec v(ref.size());
              for(std::size_t i = 0; i < ref.size(); ++i)
                v[i] = double(i + 1);
              auto view = make_comp_state_view(v, hs);
              for(std::size_t i = 0; i < ref.size(); ++i)
                MC_CHECK(view.map_index(ref[i]) == i, "map_index(", ref[i], ") = ", view.map_index(ref[i]), " expected ", i);
              std::size_t n = 0;
              foreach(view, [&](sv_index_type s, double x) {
                MC_CHECK(s == ref.at(n) && x == v[n], "foreach(view) at ", n);
                ++n;
              });
              MC_CHECK(n == ref.size(), "foreach(view) visits ", n);
              cx.trans(3 * ref.size());
              cx.validated();
              cx.state(hash(l));
            });
  });
}
template <typename R> static void sector(char const* name, mc::Ctx& cx, HS const& hs, int N, std::vector<sv_index_type> const& list) {
  Vec v(list.size(), 1.0);
  n_fermion_sector_view<Vec, true, R> view(v, hs, N);
  for(std::size_t i = 0; i < list.size(); ++i)
    MC_CHECK(view.map_index(list[i]) == i, name, ": map_index(", list[i], ") = ", view.map_index(list[i]), " expected ", i);
  std::size_t n = 0;
  foreach(view, [&](sv_index_type s, double) { MC_CHECK(s == list.at(n++), name, ": foreach() at ", n); });
  MC_CHECK(n == list.size(), name, ": foreach() visits ", n);
  cx.trans(list.size() * 2);
}
FAMILY(sectors) {
  int M = cx.pick(9, 12);
  cx.bound(mc::str("all sectors of up to ", M, " modes, with and without a four-level boson, 9 ranking algorithms"));
  for(int x = 0; x < 2; ++x)
    for(int m = 1; m <= M; ++m)
      for(int N = 0; N <= m; ++N)
        cx.test([&] { return mc::str(m, " modes N=", N, " boson ", x); },
                [&] {
                  std::vector<ES> set;
                  if(x) set.push_back({1, 4, 0});
                  for(int i = 0; i < m; ++i)
                    set.push_back({0, 2, i});
                  HS hs = build(set);
                  std::set<uint64_t> ref;
                  uint64_t fm = (uint64_t(1) << m) - 1;
                  for(uint64_t s : states(layout(set)))
                    if(bits_of(s & fm) == N) ref.insert(s);
                  auto list = n_fermion_sector_basis_states(hs, N);
                  MC_CHECK(std::set<uint64_t>(list.begin(), list.end()) == ref && list.size() == ref.size() && n_fermion_sector_size(hs, N) == ref.size(), "sector states ", mc::vec_str(list));
                  sector<combination_ranking>("combination", cx, hs, N, list);
                  sector<staggered_ranking<1>>("staggered<1>", cx, hs, N, list);
                  sector<staggered_ranking<2>>("staggered<2>", cx, hs, N, list);
                  sector<staggered_ranking<3>>("staggered<3>", cx, hs, N, list);
                  sector<staggered_ranking<5>>("staggered<5>", cx, hs, N, list);
                  sector<trie_ranking<1>>("trie<1>", cx, hs, N, list);
                  sector<trie_ranking<2>>("trie<2>", cx, hs, N, list);
                  sector<trie_ranking<3>>("trie<3>", cx, hs, N, list);
                  sector<trie_ranking<5>>("trie<5>", cx, hs, N, list);
                  cx.validated();
                  cx.state(mc::hcomb(mc::hcomb(m, N), x));
                });
}
template <typename R> static void multi(char const* name, mc::Ctx& cx, HS const& hs, std::vector<sector_descriptor<HS>> const& sec, std::vector<sv_index_type> const& list) {
  Vec v(list.size(), 1.0);
  n_fermion_multisector_view<Vec, true, R> view(v, hs, sec);
  for(std::size_t i = 0; i < list.size(); ++i)
    MC_CHECK(view.map_index(list[i]) == i, name, ": map_index(", list[i], ") = ", view.map_index(list[i]), " expected ", i);
  std::size_t n = 0;
  foreach(view, [&](sv_index_type s, double) { MC_CHECK(s == list.at(n++), name, ": foreach() at ", n); });
  MC_CHECK(n == list.size(), name, ": foreach() visits ", n);
  cx.trans(list.size() * 2);
}
FAMILY(multisectors) {
  int M = cx.pick(6, 8);
  cx.bound(mc::str("every assignment of up to ", M, " modes to two sectors or none, all particle numbers, 3 ranking algorithms, with and without other degrees of freedom"));
  for(int m = 1; m <= M; ++m) {
    std::vector<int> radix(m, 3);
    mc::tuples(radix, [&](std::vector<int> const& asg) {
      int c[3] = {0, 0, 0};
      for(int x : asg)
        ++c[x];
      cx.test([&] { return mc::str("modes ", mc::vec_str(asg)); },
              [&] {
                std::vector<ES> set;
                if(m % 2) set.push_back({1, 2, 0});
                for(int i = 0; i < m; ++i)
                  set.push_back({0, 2, i});
                HS hs = build(set);
                uint64_t mask[2] = {0, 0};
                std::vector<sector_descriptor<HS>> sec(2);
                for(int i = 0; i < m; ++i)
                  if(asg[i] < 2) {
                    mask[asg[i]] |= uint64_t(1) << i;
                    sec[asg[i]].indices.insert(std::make_tuple(i));
                  }
                for(int n0 = 0; n0 <= c[0]; ++n0)
                  for(int n1 = 0; n1 <= c[1]; ++n1) {
                    sec[0].N = n0;
                    sec[1].N = n1;
                    std::set<uint64_t> ref;
                    for(uint64_t s : states(layout(set)))
                      if(bits_of(s & mask[0]) == n0 && bits_of(s & mask[1]) == n1) ref.insert(s);
                    auto list = n_fermion_multisector_basis_states(hs, sec);
                    MC_CHECK(std::set<uint64_t>(list.begin(), list.end()) == ref && list.size() == ref.size() && n_fermion_multisector_size(hs, sec) == ref.size(), "N=", n0, ",", n1, ": states ", mc::vec_str(list));
                    multi<combination_ranking>("combination", cx, hs, sec, list);
                    multi<staggered_ranking<2>>("staggered<2>", cx, hs, sec, list);
                    multi<trie_ranking<2>>("trie<2>", cx, hs, sec, list);
                    cx.state(mc::hcomb(mc::hcomb(mask[0], mask[1]), n0 * 16 + n1));
                  }
                cx.validated();
              });
    });
  }
}
FAMILY(signs) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("all words up to length ", L, " over 4 fermionic modes behind and in front of each other with a boson and a spin: full matrices; two-mode words on modes up to bit 62"));
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}, {1, 3, 0}, {2, 3, 0}};
  std::vector<Op> g;
  for(int i = 0; i < 4; ++i)
    for(int d = 0; d < 2; ++d)
      g.push_back({0, d, 2, i});
  g.push_back({1, 1, 0, 0});
  g.push_back({2, 1, 3, 0});
  Layout l = layout(set);
  HS hs = build(set);
  auto st = states(l);
  mc::words(int(g.size()), 0, L, [&](std::vector<int> const& wi) {
    cx.test([&] { Word w; for(int i : wi) w.push_back(g[i]); return word_str(w); },
            [&] {
              Word w;
              for(int i : wi)
                w.push_back(g[i]);
              loperator<double, fermion, boson, spin> op(to_expr<double>(w), hs);
              for(auto in : st) {
                sparse_state_vector<double> src(hs.vec_size()), dst(hs.vec_size());
                src[in] = 1;
                op(src, dst);
                Col c;
                add_word(l, w, 1, in, c);
                check_col(l, dst, c, in, "operator");
                cx.trans();
              }
              cx.validated();
            });
  });
  std::vector<ES> big;
  for(int i = 0; i < 63; ++i)
    big.push_back({0, 2, i});
  Layout lb = layout(big);
  HS hb = build(big);
  for(int i = 0; i < 63; ++i)
    for(int j = 0; j < 63; ++j)
      cx.test([&] { return mc::str("63 modes, C+(", i, ")C(", j, ")"); },
              [&] {
                Word w{{0, 1, 2, i}, {0, 0, 2, j}};
                loperator<double, fermion> op(to_expr<double>(w), hb);
                for(uint64_t pat : {0x5555555555555555ull, 0x7fffffffffffffffull, 0x3333333300000000ull, 0x00000000ffffffffull, 0x0123456789abcdefull}) {
                  uint64_t in = (pat | uint64_t(1) << j) & ~(i == j ? 0 : uint64_t(1) << i) & 0x7fffffffffffffffull;
                  sparse_state_vector<double> src(hb.vec_size()), dst(hb.vec_size());
                  src[in] = 1;
                  op(src, dst);
                  Col c;
                  add_word(lb, w, 1, in, c);
                  check_col(lb, dst, c, in, "operator");
                  cx.trans();
                }
                cx.validated();
                cx.state(mc::hcomb(i, j + 64));
              });
}
