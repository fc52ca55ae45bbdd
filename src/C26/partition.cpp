// C26: space partition yields exactly the connected blocks of the Hamiltonian
#include "refpart.hpp"
using namespace refpart;

static std::vector<std::vector<ES>> const& spaces() {
  static std::vector<std::vector<ES>> s{{{0, 2, 0}}, {{1, 3, 0}}, {{2, 3, 0}}, {{0, 2, 0}, {0, 2, 1}}, {{0, 2, 0}, {1, 3, 0}}, {{0, 2, 0}, {0, 2, 1}, {0, 2, 2}}, {{2, 2, 0}, {2, 3, 0}}, {{1, 3, 0}, {1, 3, 1}}, {{0, 2, 0}, {0, 2, 1}, {1, 5, 0}}, {{0, 2, 0}, {1, 3, 0}, {2, 4, 0}}, {{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}}, {{1, 1, 0}, {2, 2, 0}, {1, 6, 1}}};
  return s;
}
template <typename Sc> static void check_h(mc::Ctx& cx, std::vector<ES> const& set, Sum const& h, double zero = 1e-9) {
  Layout l = layout(set);
  HS hs = build(set);
  auto st = states(l);
  Mat m = matrix(l, h, st, zero);
  Labels lab = blocks(m, st);
  auto H = oper<Sc>(h, hs);
  space_partition<HS> sp(H, hs);
  check_partition(sp, lab, "constructor");
  matrix_elements_map<Sc> me, me2;
  space_partition<HS> sp2(H, hs, me);
  check_partition(sp2, lab, "constructor with matrix elements");
  check_elements(me, m, "constructor", zero < 1e-9);
  for(auto s : st)
    MC_CHECK(sp[s] == sp2[s], "subspace of state ", s, " depends on whether matrix elements are requested");
  auto sp3 = make_space_partition(H, hs);
  check_partition(sp3, lab, "make_space_partition");
  auto sp4 = make_space_partition(H, hs, me2);
  check_partition(sp4, lab, "make_space_partition with matrix elements");
  MC_CHECK(me2 == me, "matrix elements differ between constructor and factory");
  // a map that already holds elements: they must not influence the partition
  matrix_elements_map<Sc> me3 = me;
  for(auto i : st)
    for(auto j : st)
      if((i + 2 * j) % 3 == 0) me3[{i, j}] = Sc(-7);
  space_partition<HS> sp5(H, hs, me3);
  check_partition(sp5, lab, "constructor with a map of matrix elements in use");
  for(auto const& p : me)
    MC_CHECK(mc::close(cd(me3[p.first]), cd(p.second)), "element <", p.first.first, "|", p.first.second, "> is not updated in a map in use");
  // states that are not part of the space
  for(uint64_t i = 0; i < hs.vec_size() + 3; ++i)
    if(!lab.count(i)) mc::expect_throw<std::out_of_range>([&] { (void)sp[i]; }, mc::str("operator[](", i, ")"));
  cx.trans(st.size() * 5);
  cx.validated();
  cx.state(mc::hcomb(hash(l), hash(lab)));
}
static std::string set_s(std::vector<ES> const& s) { return set_str(s); }

FAMILY(words) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("H = z*w + conj(z)*w^+ for all words w up to length ", L, " over the generators of ", spaces().size(), " spaces, z = 1 and i, real and complex operators"));
  for(auto const& set : spaces()) {
    auto g = generators(set);
    mc::words(int(g.size()), 0, g.size() > 7 ? L - 1 : L, [&](std::vector<int> const& wi) {
      Word w0;
      for(int i : wi)
        w0.push_back(g[i]);
      if(!boson_ordered(w0)) return;
      for(int z = 0; z < 2; ++z)
        cx.test([&] { Word w; for(int i : wi) w.push_back(g[i]); return mc::str(set_s(set), z ? "i*" : "", word_str(w), "+ h.c."); },
                [&] {
                  Word w;
                  for(int i : wi)
                    w.push_back(g[i]);
                  Sum s{{z ? cd(0, 1) : cd(1), w}};
                  if(z) check_h<cd>(cx, set, s + dag(s));
                  else
                    check_h<double>(cx, set, s + dag(s));
                });
    });
  }
}
// Hermitian building blocks
static std::vector<Sum> pool(std::vector<ES> const& set) {
  std::vector<Sum> p;
  p.push_back(Sum{{1, {}}});
  auto g = generators(set);
  for(auto const& o : g) {
    Sum s{{1, {o}}};
    if(o.comp == 1 && o.kind < 2) p.push_back(Sum{{1, {o, dag(o)}}});
    if(o.kind == 2 && o.comp == 2) p.push_back(s);
    if((o.kind < 2 && o.comp == 1) || (o.kind == 2 && o.comp == 0)) p.push_back(s + dag(s));
    for(auto const& q : g)
      if(o.comp == (o.kind == 2 ? 0 : 1) && (q.idx != o.idx || q.kind != o.kind) && q.comp != (q.kind == 2 ? 0 : 1)) {
        Sum t{{1, {o, q}}};
        p.push_back(t + dag(t));
      }
  }
  // density-assisted terms that vanish on some states together with their
  // partners below
  if(set.size() > 2 && set[0].kind == 0 && set[1].kind == 0 && set[2].kind == 0) {
    Sum hop{{1, {F(1, 0), F(0, 1)}}};
    hop = hop + dag(hop);
    p.push_back(hop * Sum{{1, {F(1, 2), F(0, 2)}}});
  }
  return p;
}
FAMILY(sums) {
  cx.bound("H = all sums of 2 building blocks (coefficients 1, -1, 2) and of 3 (coefficients 1, -1) from all densities, hops, one-body and density-assisted terms; cancelling elements included");
  for(auto const& set : spaces()) {
    if(set.size() < 2) continue;
    auto p = pool(set);
    int n = int(p.size());
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j)
        for(int c = 0; c < 3; ++c)
          cx.test([&] { return mc::str(set_s(set), sum_str(p[i]), " + c", c, "*(", sum_str(p[j]), ")"); }, [&] { check_h<double>(cx, set, p[i] + cd(c == 0 ? 1 : c == 1 ? -1 : 2) * p[j]); });
    int step = cx.pick(3, 1);
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < i; ++j)
        for(int k = 0; k < j; ++k)
          for(int c = 0; c < 4; ++c) {
            if((i + j + k + c) % step) continue;
            cx.test([&] { return mc::str(set_s(set), sum_str(p[i]), " +- (", sum_str(p[j]), ") +- (", sum_str(p[k]), ")"); }, [&] { check_h<double>(cx, set, p[i] + cd(c & 1 ? -1 : 1) * p[j] + cd(c & 2 ? -1 : 1) * p[k]); });
          }
  }
}
// |i><j| on fermionic modes as a sum of words (up to a sign)
static Sum ketbra(int modes, int i, int j) {
  Sum s{{1, {}}};
  for(int m = 0; m < modes; ++m) {
    int a = i >> m & 1, b = j >> m & 1;
    Sum f;
    if(a && b) f = Sum{{1, {F(1, m), F(0, m)}}};
    else if(a)
      f = Sum{{1, {F(1, m)}}};
    else if(b)
      f = Sum{{1, {F(0, m)}}};
    else
      f = Sum{{1, {F(0, m), F(1, m)}}};
    s = s * f;
  }
  return s;
}
FAMILY(graphs) {
  int K = cx.pick(3, 4);
  cx.bound(mc::str("every graph on 4 states (2 modes) and every graph with up to ", K, " edges on 8 states (3 modes), edges realised by operators |i><j| + |j><i|; for 8 states also all trees made of paths and stars through every vertex order of 5 vertices"));
  {
    std::vector<ES> set{{0, 2, 0}, {0, 2, 1}};
    std::vector<std::pair<int, int>> e;
    for(int i = 0; i < 4; ++i)
      for(int j = 0; j < i; ++j)
        e.push_back({i, j});
    for(int mask = 0; mask < 64; ++mask)
      cx.test([&] { return mc::str("graph ", mask, " on 4 states"); },
              [&] {
                Sum h;
                for(int k = 0; k < 6; ++k)
                  if(mask >> k & 1) {
                    Sum x = ketbra(2, e[k].first, e[k].second);
                    h = h + x + dag(x);
                  }
                check_h<double>(cx, set, h);
              });
  }
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}};
  std::vector<std::pair<int, int>> e;
  for(int i = 0; i < 8; ++i)
    for(int j = 0; j < i; ++j)
      e.push_back({i, j});
  auto run = [&](std::vector<std::pair<int, int>> const& ed) {
    cx.test([&] { std::string s = "graph on 8 states:"; for(auto const& x : ed) s += mc::str(" ", x.first, "-", x.second); return s; },
            [&] {
              Sum h;
              for(auto const& x : ed) {
                Sum k = ketbra(3, x.first, x.second);
                h = h + k + dag(k);
              }
              check_h<double>(cx, set, h);
            });
  };
  std::vector<std::pair<int, int>> cur;
  std::function<void(int)> rec = [&](int from) {
    run(cur);
    if(int(cur.size()) == K) return;
    for(int k = from; k < int(e.size()); ++k) {
      cur.push_back(e[k]);
      rec(k + 1);
      cur.pop_back();
    }
  };
  rec(0);
  std::vector<int> perm{0, 1, 2, 3, 4};
  do {
    for(int shift = 0; shift < 4; ++shift) {
      std::vector<std::pair<int, int>> path, star;
      for(int i = 0; i < 4; ++i) {
        path.push_back({(perm[i] + shift) % 8, (perm[i + 1] + shift) % 8});
        star.push_back({(perm[0] + shift) % 8, (perm[i + 1] + shift) % 8});
      }
      run(path);
      if(perm[1] < perm[2] && perm[2] < perm[3] && perm[3] < perm[4]) run(star);
    }
  } while(std::next_permutation(perm.begin(), perm.end()));
}
FAMILY(user_spaces) {
  cx.bound("Hilbert spaces of a user: the states of every N-particle sector of 4 modes, and of every union of two sectors, listed in 5 orders; hops between all subsets of 6 bonds");
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}};
  Layout l = layout(set);
  std::vector<std::pair<int, int>> bonds{{0, 1}, {1, 2}, {2, 3}, {0, 3}, {0, 2}, {1, 3}};
  for(int sectors = 1; sectors < 32; ++sectors) {
    if(__builtin_popcount(sectors) > 2) continue;
    for(int bm = 0; bm < 64; ++bm)
      for(int order = 0; order < 5; ++order)
        cx.test([&] { return mc::str("sectors ", sectors, " bonds ", bm, " order ", order); },
                [&] {
                  HS hs = build(set);
                  ListSpace ls;
                  ls.vec_size = 16;
                  for(uint64_t s = 0; s < 16; ++s)
                    if(sectors >> __builtin_popcountll(s) & 1) ls.list.push_back(s);
                  auto st = std::vector<uint64_t>(ls.list.begin(), ls.list.end());
                  if(order == 1) std::reverse(ls.list.begin(), ls.list.end());
                  if(order == 2) std::rotate(ls.list.begin(), ls.list.begin() + ls.list.size() / 2, ls.list.end());
                  if(order == 3) std::sort(ls.list.begin(), ls.list.end(), [](uint64_t a, uint64_t b) { return a * 7 % 16 < b * 7 % 16; });
                  if(order == 4) std::sort(ls.list.begin(), ls.list.end(), [](uint64_t a, uint64_t b) { return (a ^ 5) < (b ^ 5); });
                  Sum h;
                  for(int k = 0; k < 6; ++k)
                    if(bm >> k & 1) {
                      Sum t{{1, {F(1, bonds[k].first), F(0, bonds[k].second)}}};
                      h = h + t + dag(t);
                    }
                  Mat m = matrix(l, h, st);
                  Labels lab = blocks(m, st);
                  auto H = oper<double>(h, hs);
                  matrix_elements_map<double> me;
                  space_partition<ListSpace> a(H, ls), b(H, ls, me);
                  check_partition(a, lab, "list space");
                  check_partition(b, lab, "list space with matrix elements");
                  check_elements(me, m, "list space");
                  for(uint64_t i = 0; i < 16; ++i)
                    if(!lab.count(i)) mc::expect_throw<std::out_of_range>([&] { (void)a[i]; }, mc::str("operator[](", i, ")"));
                  cx.trans(st.size() * 2);
                  cx.validated();
                  cx.state(hash(lab));
                });
  }
}
FAMILY(models) {
  int M = cx.pick(8, 10);
  cx.bound(mc::str("larger models: fermion chains and rings of up to ", M, " modes with hops, pair hops, pairing and spin flips, coupled bosons and spins of many dimensions"));
  std::vector<std::pair<std::string, std::pair<std::vector<ES>, Sum>>> models;
  for(int n = 2; n <= M; ++n)
    for(int kind = 0; kind < 6; ++kind) {
      std::vector<ES> set;
      for(int i = 0; i < n; ++i)
        set.push_back({0, 2, i});
      Sum h;
      for(int i = 0; i + 1 < n; ++i) {
        Sum t;
        if(kind == 0) t = Sum{{1, {F(1, i), F(0, i + 1)}}};
        if(kind == 1 && i + 2 < n) t = Sum{{1, {F(1, i), F(0, i + 2)}}};
        if(kind == 2) t = Sum{{1, {F(1, i), F(1, i + 1)}}};
        if(kind == 3 && i + 3 < n) t = Sum{{1, {F(1, i), F(1, i + 1), F(0, i + 2), F(0, i + 3)}}};
        if(kind == 4 && i % 2 == 0) t = Sum{{1, {F(1, i), F(0, i + 1)}}};
        if(kind == 5 && i + 2 < n) t = Sum{{1, {F(1, i), F(0, i + 1), F(1, i + 2), F(0, i + 2)}}};
        h = h + t + dag(t);
        h = h + Sum{{0.5, {F(1, i), F(0, i), F(1, i + 1), F(0, i + 1)}}};
      }
      models.push_back({mc::str(n, " modes, kind ", kind), {set, h}});
    }
  for(int d = 2; d <= 9; ++d)
    for(int mult = 2; mult <= 5; ++mult) {
      std::vector<ES> set{{1, uint64_t(d), 0}, {2, uint64_t(mult), 0}, {0, 2, 0}};
      Sum jc{{1, {B(1, 0), S(1, mult, 0)}}};
      Sum two{{1, {B(1, 0), B(1, 0)}}};
      Sum ex{{1, {S(0, mult, 0), F(0, 0)}}};
      models.push_back({mc::str("Jaynes-Cummings d=", d, " 2S+1=", mult), {set, jc + dag(jc)}});
      models.push_back({mc::str("two-photon d=", d, " 2S+1=", mult), {set, two + dag(two)}});
      models.push_back({mc::str("spin flip d=", d, " 2S+1=", mult), {set, ex + dag(ex)}});
      models.push_back({mc::str("all d=", d, " 2S+1=", mult), {set, jc + dag(jc) + two + dag(two)}});
    }
  for(auto const& m : models)
    cx.test([&] { return m.first; }, [&] { check_h<double>(cx, m.second.first, m.second.second); });
}
// Weak couplings couple, too
FAMILY(magnitudes) {
  cx.bound(mc::str("H = p + s*q and s*(p + q) over all pairs of building blocks, s from ", mc::vec_str(magnitudes()), ", real and complex operators; matrix elements compared relatively"));
  for(auto const& set : spaces()) {
    auto p = pool(set);
    int n = int(p.size());
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j)
        for(std::size_t c = 0; c < magnitudes().size(); ++c)
          for(int both = 0; both < 2; ++both) {
            if(i == j && !both) continue;
            if(!cx.thorough() && n > 12 && (i + j + int(c)) % 3) continue;
            cx.test([&] { return mc::str(set_s(set), sum_str(p[i]), both ? " and " : " + ", magnitudes()[c], "*(", sum_str(p[j]), ")"); },
                    [&] {
                      double s = magnitudes()[c];
                      Sum h = both ? cd(s) * (p[i] + p[j]) : p[i] + cd(s) * p[j];
                      if((i + j) % 2) check_h<cd>(cx, set, h, tiny);
                      else
                        check_h<double>(cx, set, h, tiny);
                    });
          }
  }
}

// Numbers of subspaces beyond one byte
FAMILY(many_subspaces) {
  cx.bound(mc::str("spaces with up to ", cx.pick(2048, 4096), " states that split into hundreds and thousands of subspaces: diagonal Hamiltonians, a single bond, pair hop or mixed mode on 8..", cx.pick(11, 12), " modes, bosons of dimension 200, 300 and 1100 (index gaps), mixtures with spins"));
  for(auto const& m : many_subspaces(cx.thorough()))
    cx.test([&] { return m.name; },
            [&] {
              Layout l = layout(m.set);
              HS hs = build(m.set);
              auto st = states(l);
              Mat mat = matrix(l, m.h, st);
              Labels lab = blocks(mat, st);
              auto H = oper<double>(m.h, hs);
              matrix_elements_map<double> me;
              space_partition<HS> sp(H, hs), sp2(H, hs, me);
              check_partition(sp, lab, "constructor");
              check_partition(sp2, lab, "constructor with matrix elements");
              check_elements(me, mat, "constructor");
              for(uint64_t i = 0; i < hs.vec_size(); ++i)
                if(!lab.count(i)) mc::expect_throw<std::out_of_range>([&] { (void)sp[i]; }, mc::str("operator[](", i, ")"));
              cx.trans(st.size() * 2);
              cx.validated();
              cx.state(hash(lab));
            });
}
