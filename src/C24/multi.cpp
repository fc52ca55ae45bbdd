// C24: multisector indexing is a bijection consistent with its enumeration
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
#include "uservec.hpp"
#include <libcommute/loperator/n_fermion_sector_view.hpp>
using namespace refop;
using Vec = std::vector<double>;
using SD = sector_descriptor<HS>;

static int bits_of(uint64_t x) {
  int n = 0;
  for(; x; x >>= 1)
    n += int(x & 1);
  return n;
}
static uint64_t choose(int n, int k) {
  if(k < 0 || k > n) return 0;
  std::vector<uint64_t> row(k + 1, 0);
  row[0] = 1;
  for(int i = 1; i <= n; ++i)
    for(int j = std::min(i, k); j >= 1; --j)
      row[j] += row[j - 1];
  return row[k];
}
static std::vector<std::vector<ES>> const& extras() {
  static std::vector<std::vector<ES>> e{{}, {{1, 2, 0}}, {{2, 4, 0}, {1, 2, 1}}, {{1, 1, 0}, {2, 2, 7}}, {{1, 1, 0}}};
  return e;
}
struct World {
  std::vector<ES> set;
  Layout l;
  std::vector<SD> sectors;
  std::vector<std::pair<uint64_t, int>> rule; // mask, number of particles
};
static std::string sec_str(std::vector<SD> const& s) {
  std::string r;
  for(auto const& x : s) {
    r += "{";
    for(auto const& i : x.indices)
      r += mc::str(std::get<0>(i), " ");
    r += mc::str("}:", x.N, " ");
  }
  return r;
}
static World make_world(std::vector<int> const& modes, std::vector<ES> const& extra, std::vector<std::vector<int>> const& sets, std::vector<int> const& N) {
  World w;
  w.set = extra;
  for(int i : modes)
    w.set.push_back({0, 2, i});
  w.l = layout(w.set);
  for(std::size_t k = 0; k < sets.size(); ++k) {
    SD d;
    uint64_t mask = 0;
    for(int i : sets[k]) {
      d.indices.insert(std::make_tuple(i));
      mask |= encode(w.l, [&] {
        Occ o(w.l.es.size(), 0);
        o[slot(w.l, {0, 0, 2, i})] = 1;
        return o;
      }());
    }
    d.N = N[k];
    w.sectors.push_back(d);
    w.rule.emplace_back(mask, N[k]);
  }
  return w;
}
static bool in_sector(World const& w, uint64_t s) {
  for(auto const& r : w.rule)
    if(bits_of(s & r.first) != r.second) return false;
  return true;
}
template <typename R> static void check_map(char const* name, HS const& hs, World const& w, std::vector<sv_index_type> const& list) {
  Vec v;
  n_fermion_multisector_view<Vec, true, R> view(v, hs, w.sectors);
  for(std::size_t i = 0; i < list.size(); ++i)
    MC_CHECK(view.map_index(list[i]) == i, name, ": map_index(", list[i], ") = ", view.map_index(list[i]), ", but the state is listed at ", i);
}
static void check_list(mc::Ctx& cx, HS const& hs, World const& w, std::vector<uint64_t> const* ref, uint64_t size, bool trie) {
  MC_CHECK(n_fermion_multisector_size(hs, w.sectors) == size, "multisector size ", n_fermion_multisector_size(hs, w.sectors), " expected ", size);
  auto list = n_fermion_multisector_basis_states(hs, w.sectors);
  MC_CHECK(list.size() == size, "number of listed states ", list.size(), " expected ", size);
  std::vector<uint64_t> sorted(list.begin(), list.end());
  std::sort(sorted.begin(), sorted.end());
  MC_CHECK(std::adjacent_find(sorted.begin(), sorted.end()) == sorted.end(), "a state is listed twice");
  for(uint64_t s : sorted)
    MC_CHECK(s < hs.vec_size() && in_sector(w, s), "listed state ", s, " is not in the multisector");
  if(ref) MC_CHECK(sorted == *ref, "wrong list of states");
  check_map<combination_ranking>("combination", hs, w, list);
  check_map<staggered_ranking<1>>("staggered<1>", hs, w, list);
  check_map<staggered_ranking<2>>("staggered<2>", hs, w, list);
  check_map<staggered_ranking<4>>("staggered<4>", hs, w, list);
  if(trie) {
    check_map<trie_ranking<1>>("trie<1>", hs, w, list);
    check_map<trie_ranking<2>>("trie<2>", hs, w, list);
    check_map<trie_ranking<3>>("trie<3>", hs, w, list);
  }
  Vec v(list.size());
  for(std::size_t i = 0; i < v.size(); ++i)
    v[i] = double(i % 3);
  auto cview = make_const_nfms_view(v, hs, w.sectors);
  auto view = make_nfms_view(v, hs, w.sectors);
  std::vector<bool> seen(list.size(), false);
  foreach(view, [&](sv_index_type n, double x) {
    std::size_t i = view.map_index(n);
    MC_CHECK(i < list.size() && list[i] == n && !seen[i] && x == v[i] && x != 0, "foreach() reported (", n, ",", x, ")");
    seen[i] = true;
  });
  for(std::size_t i = 0; i < v.size(); ++i) {
    MC_CHECK(seen[i] == (v[i] != 0), "foreach() missed state ", list[i]);
    MC_CHECK(get_element(cview, list[i]) == v[i] && cview.map_index(list[i]) == i, "const view at ", list[i]);
  }
  cx.trans(8 * list.size());
  cx.validated();
}
// modes with scattered indices; sets in any order, interleaved
FAMILY(all_multisectors) {
  int M = cx.pick(6, 7), Mx = cx.pick(4, 5);
  cx.bound(mc::str("every assignment of up to ", M, " modes (", Mx, " with other degrees of freedom, 4 choices) to up to 3 ordered sets or none, every combination of particle numbers; every state; 7 rankings"));
  for(std::size_t x = 0; x < extras().size(); ++x)
    for(int m = 0; m <= (x == 0 ? M : Mx); ++m)
      for(int ns = 0; ns <= 3; ++ns)
        mc::words(ns + 1, m, m, [&](std::vector<int> const& as) {
          std::vector<std::vector<int>> sets(ns);
          std::vector<int> modes, radix;
          for(int i = 0; i < m; ++i) {
            int idx = (i * 3) % 7 - 2; // in no particular order
            modes.push_back(idx);
            if(as[i] < ns) sets[as[i]].push_back(idx);
          }
          for(auto const& s : sets)
            radix.push_back(int(s.size()) + 1);
          mc::tuples(radix, [&](std::vector<int> const& N) {
            cx.test([&] { return mc::str("modes ", mc::vec_str(modes), " other ", set_str(extras()[x]), " ", sec_str(make_world(modes, extras()[x], sets, N).sectors)); },
                    [&] {
                      World w = make_world(modes, extras()[x], sets, N);
                      HS hs = build(w.set);
                      if(w.l.bits == 0) {
                        MC_CHECK(n_fermion_multisector_size(hs, w.sectors) == n_fermion_multisector_basis_states(hs, w.sectors).size(), "size of a trivial multisector");
                        return;
                      }
                      std::vector<uint64_t> ref;
                      for(uint64_t s : states(w.l))
                        if(in_sector(w, s)) ref.push_back(s);
                      check_list(cx, hs, w, &ref, ref.size(), true);
                      uint64_t h = mc::hcomb(x, m);
                      for(auto const& r : w.rule)
                        h = mc::hcomb(h, mc::hcomb(r.first, r.second));
                      cx.state(h);
                    });
          });
        });
}
// Sectors on high bits: subsets of chosen positions, all other modes form one more sector
FAMILY(wide_spaces) {
  std::vector<int> pos{0, 1, 30, 31, 32, 33, 47, 62};
  cx.bound("40 and 63 modes: every assignment of the modes {0,1,30,31,32,33,47,62} to 2 sets or the rest, every combination of particle numbers, the rest empty, full or with one particle/hole, in 2 orders of the sets; every state; combination and staggered rankings");
  for(int m : {40, 63})
    mc::words(3, int(pos.size()), int(pos.size()), [&](std::vector<int> const& as) {
      std::vector<std::vector<int>> sets(3);
      for(int i = 0; i < m; ++i) {
        auto it = std::find(pos.begin(), pos.end(), i);
        sets[it == pos.end() ? 2 : as[it - pos.begin()]].push_back(i);
      }
      for(std::size_t k = 0; k < pos.size(); ++k)
        if(pos[k] >= m && as[k] != 2) return; // not a mode
      std::vector<int> modes;
      for(int i = 0; i < m; ++i)
        modes.push_back(i);
      int rest = int(sets[2].size());
      mc::tuples({int(sets[0].size()) + 1, int(sets[1].size()) + 1, 4, cx.pick(1, 2)}, [&](std::vector<int> const& t) {
        if(!cx.thorough() && (t[0] + t[1] + as[0] + as[7]) % 4) return; // a quarter of the combinations
        int Nr = t[2] == 0 ? 0 : t[2] == 1 ? rest : t[2] == 2 ? 1 : rest - 1;
        cx.test([&] { return mc::str(m, " modes ", mc::vec_str(as), " N ", mc::vec_str(t)); },
                [&] {
                  std::vector<std::vector<int>> s = sets;
                  std::vector<int> N{t[0], t[1], Nr};
                  if(t[3]) {
                    std::swap(s[0], s[2]);
                    std::swap(N[0], N[2]);
                  }
                  World w = make_world(modes, {}, s, N);
                  HS hs = build(w.set);
                  check_list(cx, hs, w, nullptr, choose(int(sets[0].size()), t[0]) * choose(int(sets[1].size()), t[1]) * choose(rest, Nr), false);
                  uint64_t h = m;
                  for(auto const& r : w.rule)
                    h = mc::hcomb(h, mc::hcomb(r.first, r.second));
                  cx.state(h);
                });
      });
    });
}
// Uncovered modes and other degrees of freedom next to wide sectors
FAMILY(wide_uncovered) {
  int step = cx.pick(4, 1);
  cx.bound(mc::str("34..60 modes", step == 1 ? "" : " (every 4th number)", ", up to 3 of them (first, middle, last ones; 8 choices) in no sector and a boson of dimension 4 or none: one set with 0, 1, all but one or all modes full, or a small set with 1 particle beside it; every state, 4 rankings, iteration"));
  std::vector<std::vector<int>> unc{{}, {0}, {-1}, {0, -1}, {31, 32}, {31, 32, -1}, {1, 16}, {0, 17, -1}};
  for(int m = 34; m <= 60; m += step)
    for(auto const& u : unc)
      for(int boson = 0; boson < 2; ++boson)
        for(int small = 0; small < 2; ++small)
          for(int t = 0; t < 4; ++t)
            cx.test([&] { return mc::str(m, " modes, uncovered ", mc::vec_str(u), boson ? " boson" : "", " small set ", small, " fill ", t); },
                    [&] {
                      std::set<int> un;
                      for(int i : u)
                        un.insert(i < 0 ? m - 1 : i);
                      std::vector<int> modes;
                      std::vector<std::vector<int>> sets(1 + small);
                      for(int i = 0; i < m; ++i) {
                        modes.push_back(i);
                        if(!un.count(i)) sets[small && i % 11 == 4 ? 1 : 0].push_back(i);
                      }
                      int k = int(sets[0].size());
                      std::vector<int> N{t == 0 ? 0 : t == 1 ? 1 : t == 2 ? k - 1 : k};
                      if(small) N.push_back(1);
                      World w = make_world(modes, boson ? std::vector<ES>{{1, 4, 0}} : std::vector<ES>{}, sets, N);
                      HS hs = build(w.set);
                      uint64_t size = choose(k, N[0]) * (small ? sets[1].size() : 1) * (uint64_t(1) << un.size()) * (boson ? 4 : 1);
                      check_list(cx, hs, w, nullptr, size, false);
                      uint64_t h = mc::hcomb(m, boson);
                      for(auto const& r : w.rule)
                        h = mc::hcomb(h, mc::hcomb(r.first, r.second));
                      cx.state(h);
                    });
}
// Multisectors with more than 2^32 states: iteration must reach the states near
// every position where a 32-bit counter would wrap
struct Found {
  uint64_t n;
};
FAMILY(huge_multisectors) {
  using P2 = std::vector<std::pair<int, int>>;
  std::vector<P2> cs{
      {{4, 1}, {7, 1}, {15, 6}, {16, 5}, {21, 4}}, {{4, 1}, {4, 1}, {4, 1}, {4, 1}, {9, 2}, {18, 4}, {20, 7}}, {{4, 1}, {7, 3}, {14, 5}, {16, 5}, {21, 4}}, {{4, 2}, {9, 1}, {13, 2}, {18, 6}, {19, 8}}, {{7, 1}, {7, 1}, {8, 2}, {8, 3}, {11, 1}, {11, 1}, {11, 5}}, {{4, 1}, {4, 1}, {4, 1}, {4, 1}, {11, 4}, {13, 4}, {16, 8}}, {{4, 2}, {13, 1}, {13, 4}, {30, 8}}, {{4, 2}, {6, 3}, {10, 5}, {21, 7}, {22, 8}}, {{5, 1}, {13, 1}, {13, 5}, {30, 8}}, {{7, 1}, {7, 1}, {8, 3}, {8, 3}, {11, 1}, {11, 1}, {11, 5}}, {{9, 1}, {13, 5}, {18, 6}, {19, 8}}, {{4, 1}, {17, 7}, {17, 7}, {24, 4}}};
  cx.bound("12 multisectors of 4..7 sets with 4e9..1e15 states whose number is small modulo 2^32: size, position and reading of the first state, and iteration over a sparse vector up to a position beyond that remainder");
  for(auto const& c : cs)
    for(int far = 0; far < 2; ++far)
      cx.test([&] {
        std::string t;
        for(auto const& p : c)
          t += mc::str("C(", p.first, ",", p.second, ") ");
        return t + (far ? "far" : "first");
      },
              [&] {
                std::vector<int> idx, N;
                std::vector<std::vector<int>> sets;
                uint64_t P = 1;
                for(auto const& k : c) {
                  sets.emplace_back();
                  for(int i = 0; i < k.first; ++i) {
                    sets.back().push_back(int(idx.size()));
                    idx.push_back(int(idx.size()));
                  }
                  N.push_back(k.second);
                  P *= choose(k.first, k.second);
                }
                World w = make_world(idx, {}, sets, N);
                HS hs = build(w.set);
                MC_CHECK(n_fermion_multisector_size(hs, w.sectors) == P, "size ", n_fermion_multisector_size(hs, w.sectors), " expected ", P);
                sparse_state_vector<double> v(P);
                uint64_t at = far ? P % (uint64_t(1) << 32) + 1 : 0;
                v[at] = 1;
                auto view = make_nfms_view(v, hs, w.sectors);
                bool found = false;
                try {
                  foreach(view, [&](sv_index_type n, double) { throw Found{n}; });
                } catch(Found const& f) {
                  found = true;
                  MC_CHECK(in_sector(w, f.n) && view.map_index(f.n) == at && get_element(view, f.n) == 1, "foreach() reported ", f.n, " for position ", at);
                }
                MC_CHECK(found, "foreach() did not reach position ", at, " of ", P);
                cx.trans(at + 1);
                cx.validated();
                cx.state(mc::hcomb(P, far));
              });
}
// One set of 30..60 modes far from empty and full, a small set and uncovered modes
// between its modes: positions of states made of two runs of particles
FAMILY(huge_sets) {
  int step = cx.pick(5, 1);
  cx.bound(mc::str("30..60 modes", step == 1 ? "" : " (every 5th number)", ": one set with 1/4, 1/3, 1/2, 2/3 of its modes occupied, alone or around a set of 3 modes with 1 particle, with 0 or 2 uncovered modes and a boson of dimension 4 or none: sizes; positions of all states whose big set is occupied in two runs are within range, distinct, the same for 5 rankings, and give back what was written"));
  for(int m = 30; m <= 60; m += step)
    for(int form = 0; form < 8; ++form)
      for(int fill = 0; fill < 4; ++fill)
        cx.test([&] { return mc::str(m, " modes, form ", form, " fill ", fill); },
                [&] {
                  bool small = form & 1, un = form & 2, boson = form & 4;
                  std::vector<int> modes;
                  std::vector<std::vector<int>> sets(1 + int(small));
                  for(int i = 0; i < m; ++i) {
                    modes.push_back(i);
                    if(un && (i == 7 || i == m - 1)) continue;
                    bool in_small = small && (i == 0 || i == 13 || i == 28);
                    sets[in_small ? 1 : 0].push_back(i);
                  }
                  int k = int(sets[0].size());
                  std::vector<int> N{fill == 0 ? k / 4 : fill == 1 ? k / 3 : fill == 2 ? k / 2 : 2 * k / 3};
                  if(small) N.push_back(1);
                  World w = make_world(modes, boson ? std::vector<ES>{{1, 4, 0}} : std::vector<ES>{}, sets, N);
                  HS hs = build(w.set);
                  uint64_t D = choose(k, N[0]) * (small ? 3 : 1) * (un ? 4 : 1) * (boson ? 4 : 1);
                  MC_CHECK(n_fermion_multisector_size(hs, w.sectors) == D, "size ", n_fermion_multisector_size(hs, w.sectors), " expected ", D);
                  // bits of the big set (lowest first) and all patterns of the other bits
                  std::vector<int> big;
                  for(int b = 0; b < m; ++b)
                    if(w.rule[0].first >> b & 1) big.push_back(b);
                  uint64_t all = hs.vec_size() - 1, rest = all & ~w.rule[0].first;
                  std::vector<uint64_t> others;
                  for(uint64_t r = rest;; r = (r - 1) & rest) {
                    if(!small || bits_of(r & w.rule[1].first) == 1) others.push_back(r);
                    if(r == 0) break;
                  }
                  using SV = sparse_state_vector<double>;
                  SV v(D);
                  n_fermion_multisector_view<SV, true, combination_ranking> view(v, hs, w.sectors);
                  n_fermion_multisector_view<SV, true, staggered_ranking<1>> s1(v, hs, w.sectors);
                  n_fermion_multisector_view<SV, true, staggered_ranking<3>> s3(v, hs, w.sectors);
                  n_fermion_multisector_view<SV, true, staggered_ranking<4>> s4(v, hs, w.sectors);
                  n_fermion_multisector_view<SV, true, staggered_ranking<7>> s7(v, hs, w.sectors);
                  std::map<uint64_t, uint64_t> at;
                  std::map<uint64_t, double> val;
                  int q = 0;
                  for(int n1 = 0; n1 <= N[0]; n1 += 3)
                    for(int p1 = 0; p1 <= k - N[0]; p1 += 4)
                      for(int gap = n1 == 0 ? k : 1; p1 + gap <= k - N[0] || gap == k; gap += 3) {
                        uint64_t s = 0;
                        int g = gap == k ? 0 : gap;
                        for(int i = 0; i < N[0]; ++i)
                          s |= uint64_t(1) << big[p1 + i + (i < n1 ? 0 : g)];
                        s |= others[q++ % others.size()];
                        uint64_t i = view.map_index(s);
                        MC_CHECK(in_sector(w, s), "harness: state ", s);
                        MC_CHECK(i < D, "map_index(", s, ") = ", i, " of ", D);
                        auto ins = at.emplace(i, s);
                        MC_CHECK(ins.second || ins.first->second == s, "states ", s, " and ", ins.first->second, " map to ", i);
                        MC_CHECK(s1.map_index(s) == i && s3.map_index(s) == i && s4.map_index(s) == i && s7.map_index(s) == i, "ranking algorithms disagree on ", s);
                        update_add_element(view, s, 1.0 + q);
                        val[s] += 1.0 + q;
                        cx.trans(6);
                        if(gap == k) break;
                      }
                  MC_CHECK(v.n_nonzeros() == val.size(), "stored elements: ", v.n_nonzeros());
                  for(auto const& x : val)
                    MC_CHECK(get_element(view, x.first) == x.second && get_element(s7, x.first) == x.second, "element ", x.first);
                  cx.validated();
                  cx.state(mc::hcomb(mc::hcomb(m, form), 500 + fill));
                });
}
FAMILY(refusals) {
  cx.bound("up to 3 modes: all pairs of sets of 4 indices (one foreign), particle numbers 0..3: overlapping sets, foreign indices and impossible numbers in all entry points; sparse spaces");
  for(int m = 0; m <= 3; ++m)
    for(int x = 0; x < 3; ++x)
      for(int s1 = 0; s1 < 16; ++s1)
        for(int s2 = 0; s2 < 16; ++s2)
          mc::tuples({4, 4}, [&](std::vector<int> const& N) {
            bool foreign = false, overlap = (s1 & s2) != 0;
            for(int i = 0; i < 4; ++i)
              if(((s1 | s2) >> i & 1) && i >= m) foreign = true;
            bool too_many = N[0] > bits_of(s1) || N[1] > bits_of(s2);
            bool sparse = x == 2;
            if(!foreign && !overlap && !too_many && !sparse) return;
            cx.test([&] { return mc::str(m, " modes, sets ", s1, ",", s2, " N ", mc::vec_str(N), " extra ", x); },
                    [&] {
                      std::vector<ES> set = x == 0 ? std::vector<ES>{} : x == 1 ? std::vector<ES>{{1, 4, 0}} : std::vector<ES>{{1, 3, 0}};
                      for(int i = 0; i < m; ++i)
                        set.push_back({0, 2, i});
                      HS hs = build(set);
                      std::vector<SD> s(2);
                      for(int i = 0; i < 4; ++i) {
                        if(s1 >> i & 1) s[0].indices.insert(std::make_tuple(i));
                        if(s2 >> i & 1) s[1].indices.insert(std::make_tuple(i));
                      }
                      s[0].N = N[0];
                      s[1].N = N[1];
                      Vec v(1000);
                      if(foreign || overlap || sparse) mc::expect_throw<std::runtime_error>([&] { n_fermion_multisector_size(hs, s); }, "size");
                      else
                        MC_CHECK(n_fermion_multisector_size(hs, s) == 0, "size of an impossible multisector");
                      mc::expect_throw<std::runtime_error>([&] { n_fermion_multisector_basis_states(hs, s); }, "basis states");
                      mc::expect_throw<std::runtime_error>([&] { make_nfms_view(v, hs, s); }, "view");
                      mc::expect_throw<std::runtime_error>([&] { make_const_nfms_view(v, hs, s); }, "const view");
                      cx.trans(4);
                      cx.validated();
                      cx.state(mc::hcomb(mc::hcomb(s1 * 16 + s2, m * 3 + x), N[0] * 4 + N[1]));
                    });
          });
}
// --- histories ----------------------------------------------------------------------------------------
template <typename View> static void observe(View const& view, std::vector<sv_index_type> const& list, Vec const& a, char const* w) {
  std::map<uint64_t, double> seen, ex;
  foreach(view, [&](sv_index_type n, double x) { MC_CHECK(seen.emplace(n, x).second, w, ": foreach() visited ", n, " twice"); });
  for(std::size_t i = 0; i < list.size(); ++i) {
    if(a[i] != 0) ex[list[i]] = a[i];
    MC_CHECK(get_element(view, list[i]) == a[i], w, ": element ", list[i], " = ", get_element(view, list[i]), " expected ", a[i]);
  }
  MC_CHECK(seen == ex, w, ": foreach() visited ", seen.size(), " elements, expected ", ex.size());
}
template <typename V> static V zero(std::size_t n) { return V(n); }
template <> Vec zero<Vec>(std::size_t n) { return Vec(n, 0); }
template <> Eigen::VectorXd zero<Eigen::VectorXd>(std::size_t n) { return Eigen::VectorXd::Zero(n); }
template <typename V, typename R> static void history(char const* name, mc::Ctx& cx, int L) {
  struct Sp {
    int x;
    std::vector<int> modes;
    std::vector<std::vector<int>> sets;
    std::vector<int> N;
  };
  std::vector<Sp> sp{{0, {0, 1, 2, 3}, {{0, 2}, {1, 3}}, {1, 1}}, {1, {0, 1, 2}, {{2, 0}}, {1}}, {0, {0, 1, 2}, {}, {}}, {3, {0, 1, 2, 3}, {{3}, {}, {0, 2}}, {1, 0, 1}}};
  for(std::size_t k = 0; k < sp.size(); ++k)
    mc::words(9, 1, L, [&](std::vector<int> const& w) {
      cx.test([&] { return mc::str(name, " multisector ", k, " ", mc::vec_str(w)); },
              [&] {
                World wd = make_world(sp[k].modes, extras()[sp[k].x], sp[k].sets, sp[k].N);
                auto hs = std::unique_ptr<HS>(new HS(build(wd.set)));
                auto list = n_fermion_multisector_basis_states(*hs, wd.sectors);
                std::size_t D = list.size();
                V v = zero<V>(D);
                Vec m(D, 0), mo(D, 0);
                n_fermion_multisector_view<V, true, R> a(v, *hs, wd.sectors);
                n_fermion_multisector_view<V const, true, R> ca(v, *hs, wd.sectors);
                n_fermion_multisector_view<V, false, R> own(zero<V>(D), *hs, wd.sectors);
                auto b = a;
                hs.reset();
                for(int o : w) {
                  switch(o) {
                  case 0: update_add_element(a, list[0], 1); m[0] += 1; break;
                  case 1: update_add_element(b, list[0], -1.0); m[0] += -1; break;
                  case 2: update_add_element(a, list[D - 1], 2); m[D - 1] += 2; break;
                  case 3: update_add_element(b, list[D / 2], 3); m[D / 2] += 3; break;
                  case 4: update_add_element(own, list[1], 2); mo[1] += 2; break;
                  case 5: set_zeros(a); m.assign(D, 0); break;
                  case 6: set_zeros(own); mo.assign(D, 0); break;
                  case 7: update_add_element(v, 1, 4); m[1] += 4; break;
                  default: {
                    auto c = own;
                    update_add_element(c, list[0], 5);
                    MC_CHECK(get_element(c, list[0]) == mo[0] + 5, "copied view");
                  }
                  }
                  observe(a, list, m, "view");
                  observe(b, list, m, "copy");
                  observe(ca, list, m, "const view");
                  observe(own, list, mo, "owning view");
                  for(std::size_t i = 0; i < D; ++i)
                    MC_CHECK(get_element(v, i) == m[i], "stored element ", i);
                  cx.trans();
                }
                cx.validated();
                uint64_t h = k;
                for(std::size_t i = 0; i < D; ++i)
                  h = mc::hcomb(h, mc::hcomb(mc::hdbl(m[i]), mc::hdbl(mo[i])));
                cx.state(h);
              });
    });
}
FAMILY(histories) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("4 multisectors (interleaved sets, uncovered modes, no sets, other spaces), all histories up to length ", L, " of 9 operations on views, copies, const and owning views (std::vector, sparse, Eigen, user-defined vectors; 3 rankings)"));
  history<Vec, combination_ranking>("combination std::vector", cx, L);
  history<sparse_state_vector<double>, combination_ranking>("combination sparse", cx, L);
  history<Eigen::VectorXd, combination_ranking>("combination Eigen", cx, L - 1);
  history<user::list_vector<double>, combination_ranking>("combination user", cx, L - 1);
  history<Vec, staggered_ranking<2>>("staggered<2> std::vector", cx, L - 1);
  history<Vec, trie_ranking<1>>("trie<1> std::vector", cx, L - 1);
}
// --- operators through views ------------------------------------------------------------------------------
static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }
template <typename Sc, typename R> static void blocks(mc::Ctx& cx, int L, char const* name) {
  struct C {
    std::vector<ES> extra;
    std::vector<int> modes;
    std::vector<std::vector<int>> sets;
    std::vector<Op> g;
  };
  std::vector<C> cs{{{}, {0, 1, 2, 3}, {{0, 2}, {1, 3}}, {F(0, 0), F(1, 0), F(0, 1), F(1, 1), F(0, 2), F(1, 2), F(0, 3), F(1, 3)}},
                    {{{1, 2, 0}}, {0, 1, 2}, {{2}, {0}}, {F(0, 0), F(1, 0), F(0, 1), F(1, 1), F(0, 2), F(1, 2), B(1, 0)}},
                    {{{2, 2, 0}}, {0, 1, 2}, {{1, 2}}, {F(0, 1), F(1, 1), F(0, 2), F(1, 2), F(1, 0), F(0, 0), S(0, 2, 0)}}};
  for(std::size_t k = 0; k < cs.size(); ++k) {
    auto const& c = cs[k];
    mc::words(int(c.g.size()), 0, L, [&](std::vector<int> const& wd) {
      std::vector<int> dN(c.sets.size(), 0), radix;
      Word w;
      for(int i : wd) {
        w.push_back(c.g[i]);
        for(std::size_t s = 0; s < c.sets.size(); ++s)
          if(c.g[i].kind == 0 && std::count(c.sets[s].begin(), c.sets[s].end(), c.g[i].idx)) dN[s] += c.g[i].comp ? 1 : -1;
      }
      for(auto const& s : c.sets)
        radix.push_back(int(s.size()) + 1);
      mc::tuples(radix, [&](std::vector<int> const& N) {
        std::vector<int> N2 = N;
        for(std::size_t s = 0; s < c.sets.size(); ++s) {
          N2[s] += dN[s];
          if(N2[s] < 0 || N2[s] > int(c.sets[s].size())) return;
        }
        cx.test([&] { return mc::str(name, " multisector ", k, " ", word_str(w), " N=", mc::vec_str(N)); },
                [&] {
                  World w1 = make_world(c.modes, c.extra, c.sets, N), w2 = make_world(c.modes, c.extra, c.sets, N2);
                  HS hs = build(w1.set);
                  Layout const& l = w1.l;
                  auto e = to_expr<Sc>(w);
                  if(N == N2) e += Sc(2);
                  auto op = make_loperator(e, hs);
                  Sum s = to_sum(e);
                  auto from = n_fermion_multisector_basis_states(hs, w1.sectors), to = n_fermion_multisector_basis_states(hs, w2.sectors);
                  std::vector<Sc> src(from.size(), Sc(0)), dst(to.size(), Sc(3)), full(hs.vec_size()), fdst(hs.vec_size());
                  n_fermion_multisector_view<std::vector<Sc> const, true, R> sv(src, hs, w1.sectors);
                  n_fermion_multisector_view<std::vector<Sc>, true, R> dv(dst, hs, w2.sectors);
                  for(std::size_t i = 0; i < from.size(); ++i) {
                    src.assign(from.size(), Sc(0));
                    src[i] = Sc(1);
                    Col col = column(l, s, from[i]);
                    auto verify = [&](char const* how) {
                      for(std::size_t j = 0; j < to.size(); ++j) {
                        auto it = col.find(to[j]);
                        cd ex = it == col.end() ? cd(0) : it->second;
                        MC_CHECK(mc::close(cd(dst[j]), ex), how, ": <", to[j], "|O|", from[i], "> = ", cd(dst[j]), " expected ", ex);
                      }
                    };
                    op(sv, dv);
                    verify("view to view");
                    full.assign(hs.vec_size(), Sc(0));
                    full[from[i]] = Sc(1);
                    dst.assign(to.size(), Sc(-1));
                    op(full, dv);
                    verify("vector to view");
                    op(sv, fdst);
                    check_col(l, fdst, col, from[i], "view to vector");
                    cx.trans(3);
                    cx.state(mc::hcomb(hash(col), k));
                  }
                  cx.validated();
                });
      });
    });
  }
}
FAMILY(operators) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("all words up to length ", L, " of the generators of 3 spaces connecting two multisectors, every pair of multisectors, every column; 3 rankings"));
  blocks<double, combination_ranking>(cx, L, "combination");
  blocks<double, trie_ranking<2>>(cx, L - 1, "trie<2>");
  blocks<cd, staggered_ranking<1>>(cx, L - 1, "staggered<1> complex");
}

// Views named by their type, with the defaults of the template
FAMILY(default_arguments) {
  cx.bound("n_fermion_multisector_view<V> and <V, true> refer to the vector they are given, <V, false> owns a copy; the default ranking is combination_ranking; every state of the sectors of 4 modes with and without a spin (std, sparse, Eigen vectors)");
  for(int x = 0; x < 2; ++x)
    for(int N = 0; N <= 4; ++N)
      for(int t = 0; t < 3; ++t)
        cx.test([&] { return mc::str(x ? "with spin " : "", "N=", N, " vector type ", t); },
                [&] {
                  std::vector<ES> set = x ? std::vector<ES>{{2, 2, 0}} : std::vector<ES>{};
                  for(int i = 0; i < 4; ++i)
                    set.push_back({0, 2, i});
                  HS hs = build(set);
                  if(N == 4) return;
                  std::vector<SD> sd{SD{{{0}, {2}}, unsigned(N % 3)}, SD{{{1}}, unsigned(N / 3)}};
                  auto list = n_fermion_multisector_basis_states(hs, sd);
                  auto go = [&](auto v) {
                    using V = decltype(v);
                    for(std::size_t i = 0; i < list.size(); ++i) {
                      n_fermion_multisector_view<V> a(v, hs, sd);
                      n_fermion_multisector_view<V, true> b(v, hs, sd);
                      n_fermion_multisector_view<V, false> c(v, hs, sd);
                      n_fermion_multisector_view<V, true, combination_ranking> d(a);
                      update_add_element(a, list[i], 2.0);
                      MC_CHECK(get_element(v, i) == 2, "an update through n_fermion_multisector_view<V> must reach the vector");
                      update_add_element(b, list[i], 3.0);
                      MC_CHECK(get_element(v, i) == 5 && get_element(a, list[i]) == 5 && get_element(b, list[i]) == 5 && get_element(d, list[i]) == 5, "referring views of one vector");
                      update_add_element(c, list[i], 7.0);
                      MC_CHECK(get_element(v, i) == 5 && get_element(c, list[i]) == 7, "an owning view must leave the vector alone");
                      set_zeros(c);
                      MC_CHECK(get_element(v, i) == 5, "zeroing an owning view");
                      set_zeros(a);
                      MC_CHECK(get_element(v, i) == 0, "zeroing through a referring view");
                      cx.trans(5);
                    }
                  };
                  if(t == 0) go(Vec(list.size(), 0.0));
                  if(t == 1) go(sparse_state_vector<double>(list.size()));
                  if(t == 2) {
                    Eigen::VectorXd e = Eigen::VectorXd::Zero(list.size());
                    go(e);
                  }
                  cx.validated();
                  cx.state(mc::hcomb(x, N));
                });
}
