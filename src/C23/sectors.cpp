// C23: N-fermion sector indexing is a bijection consistent with its enumeration
#include "sectors.hpp"
#include "uservec.hpp"

// other degrees of freedom with power-of-two dimensions
static std::vector<std::vector<ES>> const& extras() {
  static std::vector<std::vector<ES>> e{{}, {{1, 2, 0}}, {{1, 4, 3}}, {{2, 2, 0}}, {{2, 4, 0}, {1, 2, 1}}, {{1, 1, 0}}, {{1, 1, 0}, {2, 2, 7}}, {{10, 8, 0}}};
  return e;
}
static std::vector<ES> make_set(int M, std::vector<ES> const& extra, int stride = 1) {
  std::vector<ES> s = extra;
  for(int i = 0; i < M; ++i)
    s.push_back({0, 2, i * stride});
  return s;
}
template <typename R> struct CheckMap {
  static void run(char const* name, mc::Ctx& cx, HS const& hs, int N, std::vector<sv_index_type> const& list) {
    Vec v;
    NView<R> view(v, hs, N);
    for(std::size_t i = 0; i < list.size(); ++i)
      MC_CHECK(view.map_index(list[i]) == i, name, ": map_index(", list[i], ") = ", view.map_index(list[i]), ", but the state is listed at ", i);
    cx.trans(list.size());
  }
};
template <typename R> struct CheckVisits {
  static void run(char const* name, mc::Ctx& cx, HS const& hs, int N, std::vector<sv_index_type> const& list) {
    Vec v(list.size());
    NView<R> view(v, hs, N);
    for(int pattern = 0; pattern < 3; ++pattern) {
      for(std::size_t i = 0; i < list.size(); ++i)
        v[i] = pattern == 0 || int(i % 3) == pattern ? double(i) + 0.5 : 0;
      std::vector<char> seen(list.size(), 0);
      foreach(view, [&](sv_index_type n, double a) {
        std::size_t i = std::find(list.begin(), list.end(), n) - list.begin();
        MC_CHECK(i < list.size() && !seen[i] && a == v[i] && a != 0, name, ": foreach() reports (", n, ", ", a, ")");
        seen[i] = 1;
      });
      for(std::size_t i = 0; i < list.size(); ++i)
        MC_CHECK(seen[i] == (v[i] != 0), name, ": foreach() and state ", list[i]);
    }
    cx.trans(3);
  }
};
FAMILY(all_sectors) {
  int M = cx.pick(11, 16), Mx = cx.pick(7, 11);
  cx.bound(mc::str("purely fermionic spaces with up to ", M, " modes and mixed spaces with up to ", Mx, " modes and 7 other sets of degrees of freedom; every N; combination, staggered<1..8,11,13> and trie<1..11,13,16> ranking; every state of the sector"));
  for(std::size_t x = 0; x < extras().size(); ++x)
    for(int m = 0; m <= (x == 0 ? M : Mx); ++m)
      for(int N = 0; N <= m; ++N)
        cx.test([&] { return mc::str(m, " modes, other spaces ", set_str(extras()[x]), " N=", N); },
                [&] {
                  auto set = make_set(m, extras()[x]);
                  Layout l = layout(set);
                  HS hs = build(set);
                  if(l.bits == 0) { // no degrees of freedom at all: an empty sector
                    MC_CHECK(n_fermion_sector_size(hs, N) == n_fermion_sector_basis_states(hs, N).size(), "size of a trivial sector");
                    return;
                  }
                  std::vector<sv_index_type> ref;
                  uint64_t fm = (uint64_t(1) << m) - 1; // fermionic modes are the lowest bits
                  for(uint64_t s : states(l))
                    if(bits_of(s & fm) == N) ref.push_back(s);
                  MC_CHECK(n_fermion_sector_size(hs, N) == ref.size(), "sector size ", n_fermion_sector_size(hs, N), " expected ", ref.size());
                  auto list = n_fermion_sector_basis_states(hs, N);
                  auto sorted = list;
                  std::sort(sorted.begin(), sorted.end());
                  MC_CHECK(sorted == ref, "basis states of the sector: ", list.size(), " states, expected ", ref.size());
                  every_ranking<CheckMap>(m, false, cx, hs, N, list);
                  if(list.size() < 300) every_ranking<CheckVisits>(m, false, cx, hs, N, list);
                  // default-made views agree
                  Vec v(list.size());
                  auto view = make_nfs_view(v, hs, N);
                  auto cview = make_const_nfs_view(v, hs, N);
                  for(std::size_t i = 0; i < list.size(); ++i)
                    MC_CHECK(view.map_index(list[i]) == i && cview.map_index(list[i]) == i, "map_index() of a default view");
                  cx.validated();
                  cx.state(mc::hcomb(mc::hcomb(m, N), x));
                });
}
// Chunks of more than 8 bits with modes left over for a second chunk
template <unsigned R> static void long_chunk(mc::Ctx& cx, int more) {
  for(int m = int(R) + 1; m <= int(R) + more; ++m)
    for(int N = 0; N <= m; ++N)
      cx.test([&] { return mc::str("chunks of ", R, " bits, ", m, " modes, N=", N); },
              [&] {
                HS hs = build(make_set(m, {}));
                auto list = n_fermion_sector_basis_states(hs, N);
                MC_CHECK(list.size() == choose(m, N), "number of listed states ", list.size(), " expected ", choose(m, N));
                std::set<uint64_t> seen;
                for(uint64_t s : list)
                  MC_CHECK(bits_of(s) == N && s < hs.vec_size() && seen.insert(s).second, "listed state ", s);
                CheckMap<staggered_ranking<R>>::run(mc::str("staggered<", R, ">").c_str(), cx, hs, N, list);
                CheckMap<trie_ranking<R>>::run(mc::str("trie<", R, ">").c_str(), cx, hs, N, list);
                cx.validated();
                cx.state(mc::hcomb(mc::hcomb(m, N), 1000 + R));
              });
}
FAMILY(long_chunks) {
  cx.bound(mc::str("staggered and trie rankings with chunks of 9..", cx.pick(12, 16), " bits and up to ", cx.pick(3, 4), " modes more than that; every N, every state of the sector"));
  int more = cx.pick(3, 4);
  long_chunk<9>(cx, more + 1);
  long_chunk<10>(cx, more);
  long_chunk<11>(cx, more);
  long_chunk<12>(cx, more - 1);
  if(cx.thorough()) {
    long_chunk<13>(cx, more);
    long_chunk<14>(cx, more);
    long_chunk<15>(cx, more);
    long_chunk<16>(cx, more);
  }
}
// foreach() visits exactly the listed states with their amplitudes
template <typename R> static void iterate(char const* name, HS const& hs, int N, std::vector<sv_index_type> const& list) {
  Vec v(list.size());
  std::map<uint64_t, double> ex, seen;
  for(std::size_t i = 0; i < list.size(); ++i) {
    v[i] = double(i % 4);
    if(v[i] != 0) ex[list[i]] = v[i];
  }
  n_fermion_sector_view<Vec const, true, R> view(v, hs, N);
  foreach(view, [&](sv_index_type n, double a) { MC_CHECK(seen.emplace(n, a).second, name, ": foreach() visited ", n, " twice"); });
  MC_CHECK(seen == ex, name, ": foreach() visited ", seen.size(), " states, expected the ", ex.size(), " listed ones with nonzero amplitudes");
}
FAMILY(wide_spaces) {
  uint64_t cap = cx.pick(3000, 60000);
  cx.bound(mc::str("spaces with 12..63 fermionic modes, alone or with a boson of dimension 4: all N whose sector has at most ", cap, " states (few particles or few holes), combination and staggered<1..8> ranking, every state, read and iterated; all sizes C(M,N) for every N"));
  for(int x = 0; x < 2; ++x)
    for(int m = 12; m <= 63 - 2 * x; ++m)
      for(int N = 0; N <= m; ++N)
        cx.test([&] { return mc::str(m, " modes, N=", N, x ? " with a boson" : ""); },
                [&] {
                  auto set = make_set(m, x ? std::vector<ES>{{1, 4, 0}} : std::vector<ES>{});
                  HS hs = build(set);
                  uint64_t c = choose(m, N), nf = x ? 4 : 1;
                  MC_CHECK(n_fermion_sector_size(hs, N) == c * nf, "sector size ", n_fermion_sector_size(hs, N), " expected ", c * nf);
                  cx.trans();
                  cx.state(mc::hcomb(mc::hcomb(m, N), 77 + x));
                  if(c * nf <= cap) {
                    auto list = n_fermion_sector_basis_states(hs, N);
                    std::set<uint64_t> seen;
                    uint64_t fm = (uint64_t(1) << m) - 1;
                    for(uint64_t s : list) {
                      MC_CHECK(bits_of(s & fm) == N && s < hs.vec_size(), "listed state ", s, " has ", bits_of(s & fm), " fermions");
                      MC_CHECK(seen.insert(s).second, "state ", s, " listed twice");
                    }
                    MC_CHECK(list.size() == c * nf, "number of listed states ", list.size(), " expected ", c * nf);
                    every_ranking<CheckMap>(m, true, cx, hs, N, list);
                    iterate<combination_ranking>("combination", hs, N, list);
                    if(c * nf <= 600) iterate<staggered_ranking<5>>("staggered<5>", hs, N, list);
                  } else {
                    // extreme states of a huge sector: lowest and highest patterns
                    Vec v;
                    auto view = make_nfs_view(v, hs, N);
                    uint64_t low = ((uint64_t(1) << N) - 1), high = low << (m - N);
                    uint64_t a = view.map_index(low), b = view.map_index(high);
                    MC_CHECK((a == 0 && b == (c - 1) * nf) || (b == 0 && a == (c - 1) * nf), "extreme states map to ", a, " and ", b, " of ", c * nf);
                    staggered_ranking<4>* p = nullptr;
                    (void)p;
                    NView<staggered_ranking<4>> sview(v, hs, N);
                    NView<staggered_ranking<7>> sview7(v, hs, N);
                    // all patterns made of two runs of particles: the algorithms agree
                    for(int k = 0; k <= N; k += 3)
                      for(int sh = 0; sh <= m - N; sh += 2) {
                        uint64_t lo = (uint64_t(1) << k) - 1, hi = ((uint64_t(1) << (N - k)) - 1) << k;
                        uint64_t s = lo | (sh ? hi << sh : hi);
                        MC_CHECK(sview.map_index(s) == view.map_index(s) && sview7.map_index(s) == view.map_index(s), "ranking algorithms disagree on ", s);
                        MC_CHECK(view.map_index(s) < c * nf, "map_index(", s, ") beyond the sector");
                        cx.trans();
                      }
                  }
                  cx.validated();
                });
}
// Non-fermionic parts of up to 2^62 states: too many to list, so chosen states are
// written and read back through a view of a sparse vector
FAMILY(huge_other_spaces) {
  cx.bound("0..3 modes with bosons of dimension 2^20..2^61 (alone, or one such boson and one of dimension 4), every N: sizes, and positions of all states made of 12 patterns of the other bits are distinct, within range, and give back what was written; combination, staggered and trie rankings");
  for(int m = 0; m <= 3; ++m)
    for(int b : {20, 31, 32, 33, 40, 55, 58})
      for(int two = 0; two < 2; ++two)
        for(int N = 0; N <= m; ++N)
          cx.test([&] { return mc::str(m, " modes, boson of 2^", b, two ? " and of 4" : "", " states, N=", N); },
                  [&] {
                    std::vector<ES> ex{{1, uint64_t(1) << b, 0}};
                    if(two) ex.push_back({1, 4, 1});
                    HS hs = build(make_set(m, ex));
                    int nb = b + 2 * two;
                    uint64_t D = choose(m, N) << nb;
                    MC_CHECK(n_fermion_sector_size(hs, N) == D, "size ", n_fermion_sector_size(hs, N), " expected ", D);
                    std::set<uint64_t> pat;
                    uint64_t top = (uint64_t(1) << nb) - 1;
                    for(uint64_t p : {uint64_t(0), uint64_t(1), uint64_t(5), uint64_t(1) << 19, top >> 1, top, top - 1, (uint64_t(1) << 31), (uint64_t(1) << 32), (uint64_t(1) << 32) + 1, (uint64_t(1) << (nb - 1)) + 3, 0x5555555555555555u & top})
                      if(p <= top) pat.insert(p);
                    sparse_state_vector<double> v(D);
                    n_fermion_sector_view<sparse_state_vector<double>, true, combination_ranking> view(v, hs, N);
                    n_fermion_sector_view<sparse_state_vector<double>, true, staggered_ranking<2>> sview(v, hs, N);
                    n_fermion_sector_view<sparse_state_vector<double>, true, trie_ranking<2>> tview(v, hs, N);
                    std::map<uint64_t, uint64_t> at; // position -> state
                    std::map<uint64_t, double> val;
                    double x = 1;
                    for(uint64_t p : pat)
                      for(uint64_t f = 0; f < (uint64_t(1) << m); ++f) {
                        if(bits_of(f) != N) continue;
                        uint64_t st = f | (p << m), i = view.map_index(st);
                        MC_CHECK(i < D, "map_index(", st, ") = ", i, " of ", D);
                        MC_CHECK(at.emplace(i, st).second, "states ", st, " and ", at[i], " map to ", i);
                        MC_CHECK(sview.map_index(st) == i && tview.map_index(st) == i, "ranking algorithms disagree on ", st);
                        update_add_element(view, st, x);
                        val[st] = x;
                        x += 1;
                        cx.trans();
                      }
                    MC_CHECK(v.n_nonzeros() == val.size(), "stored elements: ", v.n_nonzeros());
                    for(auto const& q : val)
                      MC_CHECK(get_element(view, q.first) == q.second, "element ", q.first, " = ", get_element(view, q.first));
                    cx.validated();
                    cx.state(mc::hcomb(mc::hcomb(m, N), b * 2 + two));
                  });
}
FAMILY(refusals) {
  cx.bound("N = M+1..M+3 for up to 6 modes with and without other spaces; sparse spaces");
  for(std::size_t x = 0; x < extras().size(); ++x)
    for(int m = 0; m <= 6; ++m)
      for(int d = 1; d <= 3; ++d)
        cx.test([&] { return mc::str(m, " modes, ", set_str(extras()[x]), " N=M+", d); },
                [&] {
                  HS hs = build(make_set(m, extras()[x]));
                  Vec v;
                  MC_CHECK(n_fermion_sector_size(hs, m + d) == 0, "size of an impossible sector");
                  mc::expect_throw<std::runtime_error>([&] { make_nfs_view(v, hs, m + d); }, "view");
                  mc::expect_throw<std::runtime_error>([&] { make_const_nfs_view(v, hs, m + d); }, "const view");
                  mc::expect_throw<std::runtime_error>([&] { n_fermion_sector_basis_states(hs, m + d); }, "basis states");
                  mc::expect_throw<std::runtime_error>([&] { (NView<trie_ranking<3>>(v, hs, m + d)); }, "trie view");
                  mc::expect_throw<std::runtime_error>([&] { (NView<staggered_ranking<3>>(v, hs, m + d)); }, "staggered view");
                  cx.trans(6);
                  cx.validated();
                  cx.state(mc::hcomb(m + 100 * d, x));
                });
  for(int m = 0; m <= 3; ++m)
    for(int N = 0; N <= m; ++N)
      for(int k : {3, 5, 6, 7})
        cx.test([&] { return mc::str(m, " modes and a boson of dimension ", k, " N=", N); },
                [&] {
                  HS hs = build(make_set(m, {{1, uint64_t(k), 0}}));
                  Vec v(100);
                  mc::expect_throw<std::runtime_error>([&] { n_fermion_sector_size(hs, N); }, "size");
                  mc::expect_throw<std::runtime_error>([&] { make_nfs_view(v, hs, N); }, "view");
                  mc::expect_throw<std::runtime_error>([&] { n_fermion_sector_basis_states(hs, N); }, "basis states");
                  cx.trans(3);
                  cx.validated();
                  cx.state(mc::hcomb(mc::hcomb(m, N), k));
                });
}
// --- histories -------------------------------------------------------------------------------------
template <typename View> static void observe(View const& view, std::vector<sv_index_type> const& list, Vec const& a, char const* w) {
  std::map<uint64_t, double> seen, ex;
  foreach(view, [&](sv_index_type n, double x) { MC_CHECK(seen.emplace(n, x).second, w, ": foreach() visited ", n, " twice"); });
  for(std::size_t i = 0; i < list.size(); ++i) {
    if(a[i] != 0) ex[list[i]] = a[i];
    MC_CHECK(get_element(view, list[i]) == a[i], w, ": element ", list[i], " = ", get_element(view, list[i]), " expected ", a[i]);
  }
  MC_CHECK(seen == ex, w, ": foreach() visited ", seen.size(), " elements, expected ", ex.size());
}
template <typename V> static V zero(std::size_t n) { return V(n); }
template <> Vec zero<Vec>(std::size_t n) { return Vec(n, 0); }
template <> Eigen::VectorXd zero<Eigen::VectorXd>(std::size_t n) { return Eigen::VectorXd::Zero(n); }
template <typename R> struct History {
  template <typename V> static void go(char const* name, char const* type, mc::Ctx& cx, int L) {
    struct Sp {
      int m;
      int x;
      int N;
    };
    std::vector<Sp> sp{{3, 0, 1}, {3, 1, 2}, {4, 3, 2}, {2, 6, 1}, {0, 2, 0}};
    for(auto const& s : sp)
      mc::words(9, 1, L, [&](std::vector<int> const& w) {
        cx.test([&] { return mc::str(name, " ", type, " ", s.m, " modes + ", set_str(extras()[s.x]), " N=", s.N, " ", mc::vec_str(w)); },
                [&] {
                  auto hs = std::unique_ptr<HS>(new HS(build(make_set(s.m, extras()[s.x]))));
                  auto list = n_fermion_sector_basis_states(*hs, s.N);
                  std::size_t D = list.size();
                  V v = zero<V>(D);
                  Vec m(D, 0), mo(D, 0);
                  n_fermion_sector_view<V, true, R> a(v, *hs, s.N);
                  n_fermion_sector_view<V const, true, R> ca(v, *hs, s.N);
                  n_fermion_sector_view<V, false, R> own(zero<V>(D), *hs, s.N);
                  auto b = a;
                  hs.reset();
                  for(int o : w) {
                    switch(o) {
                    case 0: update_add_element(a, list[0], 1); m[0] += 1; break;
                    case 1: update_add_element(b, list[0], -1.0); m[0] += -1; break;
                    case 2: update_add_element(a, list[D - 1], 2); m[D - 1] += 2; break;
                    case 3: update_add_element(b, list[D / 2], 3); m[D / 2] += 3; break;
                    case 4: update_add_element(own, list[1], 2); mo[1] += 2; break;
                    case 5: set_zeros(a); m.assign(D, 0); break;
                    case 6: set_zeros(own); mo.assign(D, 0); break;
                    case 7: update_add_element(v, 1, 4); m[1] += 4; break;
                    default: {
                      auto c = own;
                      update_add_element(c, list[0], 5);
                      MC_CHECK(get_element(c, list[0]) == mo[0] + 5, "copied view");
                    }
                    }
                    observe(a, list, m, "view");
                    observe(b, list, m, "copy");
                    observe(ca, list, m, "const view");
                    observe(own, list, mo, "owning view");
                    for(std::size_t i = 0; i < D; ++i)
                      MC_CHECK(get_element(v, i) == m[i], "stored element ", i);
                    cx.trans();
                  }
                  cx.validated();
                  uint64_t h = mc::hcomb(s.m, s.x);
                  for(std::size_t i = 0; i < D; ++i)
                    h = mc::hcomb(h, mc::hcomb(mc::hdbl(m[i]), mc::hdbl(mo[i])));
                  cx.state(h);
                });
      });
  }
};
FAMILY(histories) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("5 sectors, all histories up to length ", L, " of 9 operations on views, copies, const and owning views (std::vector, sparse, Eigen, user-defined vectors; 3 rankings)"));
  History<combination_ranking>::go<Vec>("combination", "std::vector", cx, L);
  History<combination_ranking>::go<sparse_state_vector<double>>("combination", "sparse", cx, L);
  History<combination_ranking>::go<Eigen::VectorXd>("combination", "Eigen", cx, L - 1);
  History<combination_ranking>::go<user::list_vector<double>>("combination", "user", cx, L - 1);
  History<staggered_ranking<2>>::go<Vec>("staggered<2>", "std::vector", cx, L - 1);
  History<trie_ranking<2>>::go<Vec>("trie<2>", "std::vector", cx, L - 1);
}
// --- operators through views -------------------------------------------------------------------------
static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }
template <typename Sc, typename R> static void block(mc::Ctx& cx, std::vector<ES> const& set, std::vector<Op> const& g, int L, char const* name) {
  int M = 0;
  for(auto const& e : set)
    M += e.kind == 0;
  mc::words(int(g.size()), 0, L, [&](std::vector<int> const& wd) {
    int dN = 0;
    Word w;
    for(int i : wd) {
      w.push_back(g[i]);
      if(g[i].kind == 0) dN += g[i].comp ? 1 : -1;
    }
    for(int N = 0; N <= M; ++N) {
      if(N + dN < 0 || N + dN > M) continue;
      cx.test([&] { return mc::str(name, " ", set_str(set), " ", word_str(w), " N=", N); },
              [&] {
                HS hs = build(set);
                Layout l = layout(set);
                auto e = to_expr<Sc>(w);
                if(dN == 0) e += Sc(2);
                auto op = make_loperator(e, hs);
                Sum s = to_sum(e);
                auto from = n_fermion_sector_basis_states(hs, N), to = n_fermion_sector_basis_states(hs, N + dN);
                std::vector<Sc> src(from.size(), Sc(0)), dst(to.size(), Sc(3));
                n_fermion_sector_view<std::vector<Sc> const, true, R> sv(src, hs, N);
                n_fermion_sector_view<std::vector<Sc>, true, R> dv(dst, hs, N + dN);
                std::vector<Sc> full(hs.vec_size()), fdst(hs.vec_size());
                for(std::size_t i = 0; i < from.size(); ++i) {
                  src.assign(from.size(), Sc(0));
                  src[i] = Sc(1);
                  Col col = column(l, s, from[i]);
                  auto verify = [&](char const* how) {
                    for(std::size_t j = 0; j < to.size(); ++j) {
                      auto it = col.find(to[j]);
                      cd ex = it == col.end() ? cd(0) : it->second;
                      MC_CHECK(mc::close(cd(dst[j]), ex), how, ": <", to[j], "|O|", from[i], "> = ", cd(dst[j]), " expected ", ex);
                    }
                  };
                  op(sv, dv);
                  verify("view to view");
                  full.assign(hs.vec_size(), Sc(0));
                  full[from[i]] = Sc(1);
                  dst.assign(to.size(), Sc(-1));
                  op(full, dv);
                  verify("vector to view");
                  op(sv, fdst);
                  check_col(l, fdst, col, from[i], "view to vector");
                  cx.trans(3);
                  cx.state(hash(col));
                }
                cx.validated();
              });
    }
  });
}
FAMILY(operators) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("all words up to length ", L, " of the generators of 4 spaces that connect N to N+dN, every N, every column; 3 rankings"));
  std::vector<std::pair<std::vector<ES>, std::vector<Op>>> cs{
      {{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}}, {F(0, 0), F(1, 0), F(0, 1), F(1, 1), F(0, 2), F(1, 2)}},
      {{{0, 2, 3}, {0, 2, 1}, {1, 2, 0}}, {F(0, 1), F(1, 1), F(0, 3), F(1, 3), B(0, 0), B(1, 0)}},
      {{{0, 2, 0}, {0, 2, 1}, {2, 2, 0}}, {F(0, 0), F(1, 0), F(0, 1), F(1, 1), S(0, 2, 0), S(1, 2, 0), S(2, 2, 0)}},
      {{{1, 4, 0}, {2, 2, 0}}, {B(0, 0), B(1, 0), S(0, 2, 0), S(2, 2, 0)}}};
  for(auto const& c : cs) {
    block<double, combination_ranking>(cx, c.first, c.second, L, "combination");
    block<double, trie_ranking<2>>(cx, c.first, c.second, L - 1, "trie<2>");
    block<cd, staggered_ranking<1>>(cx, c.first, c.second, L - 1, "staggered<1> complex");
  }
}

// Views named by their type, with the defaults of the template
FAMILY(default_arguments) {
  cx.bound("n_fermion_sector_view<V> and <V, true> refer to the vector they are given, <V, false> owns a copy; the default ranking is combination_ranking; every state of the sectors of 4 modes with and without a spin (std, sparse, Eigen vectors)");
  for(int x = 0; x < 2; ++x)
    for(int N = 0; N <= 4; ++N)
      for(int t = 0; t < 3; ++t)
        cx.test([&] { return mc::str(x ? "with spin " : "", "N=", N, " vector type ", t); },
                [&] {
                  std::vector<ES> set = x ? std::vector<ES>{{2, 2, 0}} : std::vector<ES>{};
                  for(int i = 0; i < 4; ++i)
                    set.push_back({0, 2, i});
                  HS hs = build(set);
                  auto list = n_fermion_sector_basis_states(hs, N);
                  auto go = [&](auto v) {
                    using V = decltype(v);
                    for(std::size_t i = 0; i < list.size(); ++i) {
                      n_fermion_sector_view<V> a(v, hs, N);
                      n_fermion_sector_view<V, true> b(v, hs, N);
                      n_fermion_sector_view<V, false> c(v, hs, N);
                      n_fermion_sector_view<V, true, combination_ranking> d(a);
                      update_add_element(a, list[i], 2.0);
                      MC_CHECK(get_element(v, i) == 2, "an update through n_fermion_sector_view<V> must reach the vector");
                      update_add_element(b, list[i], 3.0);
                      MC_CHECK(get_element(v, i) == 5 && get_element(a, list[i]) == 5 && get_element(b, list[i]) == 5 && get_element(d, list[i]) == 5, "referring views of one vector");
                      update_add_element(c, list[i], 7.0);
                      MC_CHECK(get_element(v, i) == 5 && get_element(c, list[i]) == 7, "an owning view must leave the vector alone");
                      set_zeros(c);
                      MC_CHECK(get_element(v, i) == 5, "zeroing an owning view");
                      set_zeros(a);
                      MC_CHECK(get_element(v, i) == 0, "zeroing through a referring view");
                      cx.trans(5);
                    }
                  };
                  if(t == 0) go(Vec(list.size(), 0.0));
                  if(t == 1) go(sparse_state_vector<double>(list.size()));
                  if(t == 2) {
                    Eigen::VectorXd e = Eigen::VectorXd::Zero(list.size());
                    go(e);
                  }
                  cx.validated();
                  cx.state(mc::hcomb(x, N));
                });
}
