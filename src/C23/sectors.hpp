// Shared by the C23 harnesses
#pragma once
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
#include <libcommute/loperator/n_fermion_sector_view.hpp>
using namespace refop;
using Vec = std::vector<double>;
template <typename R> using NView = n_fermion_sector_view<Vec, true, R>;

// G<Ranking>::run(...) for every ranking algorithm and chunk size
template <template <typename> class G, typename... X> static void every_ranking(int m, bool wide, X&&... x) {
  G<combination_ranking>::run("combination", x...);
  G<staggered_ranking<1>>::run("staggered<1>", x...);
  G<staggered_ranking<2>>::run("staggered<2>", x...);
  G<staggered_ranking<3>>::run("staggered<3>", x...);
  G<staggered_ranking<4>>::run("staggered<4>", x...);
  G<staggered_ranking<5>>::run("staggered<5>", x...);
  G<staggered_ranking<6>>::run("staggered<6>", x...);
  G<staggered_ranking<7>>::run("staggered<7>", x...);
  G<staggered_ranking<8>>::run("staggered<8>", x...);
  if(wide) return;
  G<staggered_ranking<11>>::run("staggered<11>", x...);
  G<staggered_ranking<13>>::run("staggered<13>", x...);
  if(m > 18) return;
  G<trie_ranking<1>>::run("trie<1>", x...);
  G<trie_ranking<2>>::run("trie<2>", x...);
  G<trie_ranking<3>>::run("trie<3>", x...);
  G<trie_ranking<4>>::run("trie<4>", x...);
  G<trie_ranking<5>>::run("trie<5>", x...);
  G<trie_ranking<6>>::run("trie<6>", x...);
  G<trie_ranking<7>>::run("trie<7>", x...);
  G<trie_ranking<8>>::run("trie<8>", x...);
  G<trie_ranking<9>>::run("trie<9>", x...);
  G<trie_ranking<10>>::run("trie<10>", x...);
  G<trie_ranking<11>>::run("trie<11>", x...);
  G<trie_ranking<13>>::run("trie<13>", x...);
  G<trie_ranking<16>>::run("trie<16>", x...);
}
inline int bits_of(uint64_t x) {
  int n = 0;
  for(; x; x >>= 1)
    n += int(x & 1);
  return n;
}
// C(n,k) by Pascal's triangle (exact for n <= 64 while it fits)
inline uint64_t choose(int n, int k) {
  if(k < 0 || k > n) return 0;
  std::vector<uint64_t> row(k + 1, 0);
  row[0] = 1;
  for(int i = 1; i <= n; ++i)
    for(int j = std::min(i, k); j >= 1; --j)
      row[j] += row[j - 1];
  return row[k];
}
