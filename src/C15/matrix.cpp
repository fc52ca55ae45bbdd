// C15: operator action equals the textbook matrix of the expression
#include "refop.hpp"
using namespace refop;

template <typename S, typename A> static void check_op(mc::Ctx& cx, HS const& hs, Layout const& l, expression<S, int> const& e, Sum const& ref, std::vector<uint64_t> const& in, std::string const& what) {
  auto op = make_loperator(e, hs);
  uint64_t h = 3;
  for(uint64_t s : in) {
    Col col = column(l, ref, s);
    if(l.bits <= 12) {
      std::vector<A> src(get_vec_size(hs)), dst(get_vec_size(hs), A(7));
      src[s] = A(1);
      op(src, dst);
      check_col(l, dst, col, s, what);
    } else {
      sparse_state_vector<A> src(get_vec_size(hs)), dst(get_vec_size(hs));
      src[s] = A(1);
      dst[in[0]] = A(7);
      op(src, dst);
      check_col(l, dst, col, s, what);
    }
    cx.trans();
    h = mc::hcomb(h, mc::hcomb(s, hash(col)));
  }
  cx.state(mc::hcomb(refhs::hash(l), h));
  cx.validated();
}
// canonical product of one word; the matrix of the word itself where no truncation can interfere
static void word_case(mc::Ctx& cx, std::vector<ES> const& set, Word const& w, bool exact_word) {
  cx.test([&] { return set_str(set) + ": " + word_str(w); },
          [&] {
            auto e = to_expr<double>(w);
            HS hs = build(set);
            Layout l = layout(set);
            Sum ref = exact_word ? Sum{{cd(1), w}} : to_sum(e);
            check_op<double, double>(cx, hs, l, e, ref, states(l), word_str(w) + " in " + set_str(set));
          });
}
static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }

static std::vector<Op> gens(std::vector<ES> const& set) {
  std::vector<Op> r;
  for(auto const& e : set) {
    if(e.kind == 2)
      for(int c = 0; c < 3; ++c)
        r.push_back(S(c, e.par, e.idx));
    else
      for(int d = 1; d >= 0; --d)
        r.push_back({e.kind, d, 2, e.idx});
  }
  return r;
}

// --- fermions ---------------------------------------------------------------------
FAMILY(fermion_monomials) {
  int maxM = cx.pick(5, 7);
  cx.bound(mc::str("all 4^M fermionic monomials (every creation set x every annihilation set) on every state of 1..", maxM, " modes"));
  for(int M = 1; M <= maxM; ++M) {
    std::vector<ES> set;
    for(int i = 0; i < M; ++i)
      set.push_back({0, 2, i});
    for(int cr = 0; cr < (1 << M); ++cr)
      for(int an = 0; an < (1 << M); ++an) {
        Word w;
        for(int i = 0; i < M; ++i)
          if(cr >> i & 1) w.push_back(F(1, i));
        for(int i = M; i-- > 0;)
          if(an >> i & 1) w.push_back(F(0, i));
        word_case(cx, set, w, true);
      }
  }
}
FAMILY(fermion_words) {
  int L = cx.pick(5, 6);
  cx.bound(mc::str("all words up to length ", L, " over the generators of 3 fermionic modes"));
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}};
  auto g = gens(set);
  mc::words(int(g.size()), 0, L, [&](std::vector<int> const& v) {
    Word w;
    for(int i : v)
      w.push_back(g[i]);
    word_case(cx, set, w, true);
  });
}
// --- bosons ---------------------------------------------------------------------
FAMILY(boson_powers) {
  int D = cx.pick(9, 17);
  cx.bound(mc::str("(a+)^p a^q, p,q <= dim+1, one mode of every dimension 1..", D, " behind 0..3 bits of other modes and in front of another"));
  for(int d = 1; d <= D; ++d)
    for(int before = 0; before < 3; ++before)
      for(int after = 0; after < 2; ++after)
        for(int p = 0; p <= d + 1; ++p)
          for(int q = 0; q <= d + 1; ++q) {
            std::vector<ES> set{{1, uint64_t(d), 5}};
            if(before >= 1) set.push_back({0, 2, 0});
            if(before >= 2) set.push_back({1, 3, 1});
            if(after) set.push_back({1, 5, 9});
            Word w(p, B(1, 5));
            w.insert(w.end(), q, B(0, 5));
            word_case(cx, set, w, false);
          }
}
FAMILY(boson_two_modes) {
  int P = cx.pick(3, 4);
  cx.bound(mc::str("all a+0^i a+1^j a1^k a0^l with powers up to ", P, " on two modes with dimensions 1..5"));
  for(int d0 = 1; d0 <= 5; ++d0)
    for(int d1 = 1; d1 <= 5; ++d1)
      mc::tuples({P + 1, P + 1, P + 1, P + 1}, [&](std::vector<int> const& t) {
        Word w(t[0], B(1, 0));
        w.insert(w.end(), t[1], B(1, 1));
        w.insert(w.end(), t[2], B(0, 1));
        w.insert(w.end(), t[3], B(0, 0));
        word_case(cx, {{1, uint64_t(d0), 0}, {1, uint64_t(d1), 1}}, w, false);
      });
}
FAMILY(boson_three_modes) {
  cx.bound("all words up to length 4 over three modes of dimensions 2, 3, 4 in every order");
  int dims[3] = {2, 3, 4};
  int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for(auto& p : perm) {
    std::vector<ES> set;
    for(int i = 0; i < 3; ++i)
      set.push_back({1, uint64_t(dims[p[i]]), i});
    auto g = gens(set);
    mc::words(6, 1, cx.pick(3, 4), [&](std::vector<int> const& v) {
      Word w;
      for(int i : v)
        w.push_back(g[i]);
      word_case(cx, set, w, false);
    });
  }
}
FAMILY(boson_large) {
  cx.bound("modes of dimension 100..300 (across the table of 128 square roots): (a+)^p a^q with p,q<=3, every state; two such modes with different dimensions; huge dimensions up to 2^40 at extreme occupations");
  auto go = [&](std::vector<ES> const& set, Word const& w) { word_case(cx, set, w, false); };
  for(int d : {100, 127, 128, 129, 130, 131, 200, 256, 300})
    for(int p = 0; p <= 3; ++p)
      for(int q = 0; q <= 3; ++q) {
        Word w(p, B(1, 0));
        w.insert(w.end(), q, B(0, 0));
        go({{1, uint64_t(d), 0}, {0, 2, 0}}, w);
      }
  int k = 0;
  for(int a : {2, 3, 127, 130})
    for(int b : {2, 3, 128, 140}) {
      std::vector<ES> set{{1, uint64_t(a), 0}, {1, uint64_t(b), 1}};
      for(int p = 0; p < 2; ++p)
        for(int q = 0; q < 2; ++q) {
          Word w{B(1, p), B(0, q)};
          cx.test([&] { return set_str(set) + word_str(w); },
                  [&] {
                    auto e = to_expr<double>(w);
                    HS hs = build(set);
                    Layout l = layout(set);
                    std::vector<uint64_t> in;
                    for(uint64_t i : {0, 1, 2, a / 2, a - 2, a - 1})
                      for(uint64_t j : {0, 1, 2, 126, 127, 128, 129, b - 2, b - 1})
                        if(i < uint64_t(a) && j < uint64_t(b)) in.push_back(encode(l, {i, j}));
                    check_op<double, double>(cx, hs, l, e, to_sum(e), in, "action");
                  });
        }
      ++k;
    }
  for(int bits : {20, 31, 32, 33, 40})
    for(int extra = 0; extra < 2; ++extra)
      for(int p = 0; p <= 3; ++p)
        for(int q = 0; q <= 3; ++q) {
          uint64_t d = (uint64_t(1) << bits) + (extra ? 5 : 0);
          Word w(p, B(1, 1));
          w.insert(w.end(), q, B(0, 1));
          std::vector<ES> set{{0, 2, 0}, {1, 4, 0}, {1, d, 1}, {2, 3, 0}};
          cx.test([&] { return set_str(set) + word_str(w); },
                  [&] {
                    auto e = to_expr<double>(w);
                    HS hs = build(set);
                    Layout l = layout(set);
                    std::vector<uint64_t> in;
                    for(uint64_t n : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(127), uint64_t(128), uint64_t(1) << 19, (uint64_t(1) << 31) - 1, uint64_t(1) << 31, uint64_t(1) << 32, d / 2, d - 4, d - 3, d - 2, d - 1})
                      if(n < d)
                        for(uint64_t rest = 0; rest < 2; ++rest)
                          in.push_back(encode(l, {rest, 3 * rest, n, 2 * rest}));
                    check_op<double, double>(cx, hs, l, e, to_sum(e), in, "action");
                  });
        }
}
// --- spins ---------------------------------------------------------------------
FAMILY(spin_words) {
  int L = cx.pick(4, 5);
  cx.bound(mc::str("all words up to length ", L, " over S+,S-,Sz of one spin with 2S+1 = 2..7, behind and in front of other degrees of freedom"));
  for(uint64_t m = 2; m <= 7; ++m)
    for(int env = 0; env < 3; ++env)
      mc::words(3, 0, L, [&](std::vector<int> const& v) {
        Word w;
        for(int i : v)
          w.push_back(S(i, m, 1));
        std::vector<ES> set{{2, m, 1}};
        if(env >= 1) set.push_back({0, 2, 0});
        if(env == 2) set.push_back({2, m, 0}), set.push_back({2, 3, 7});
        word_case(cx, set, w, true);
      });
}
FAMILY(spin_powers) {
  cx.bound("S+^i S-^j Sz^k with all powers up to 2S+1, 2S+1 = 2..7 (Sz up to power 7)");
  for(uint64_t m = 2; m <= cx.pick(6u, 7u); ++m)
    mc::tuples({int(m) + 1, int(m) + 1, cx.pick(4, 8)}, [&](std::vector<int> const& t) {
      Word w(t[0], S(0, m, 0));
      w.insert(w.end(), t[1], S(1, m, 0));
      w.insert(w.end(), t[2], S(2, m, 0));
      word_case(cx, {{2, m, 0}, {0, 2, 3}}, w, true);
    });
}
FAMILY(spin_pairs) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("all words up to length ", L, " over two spins of every pair of multiplicities 2..5"));
  for(uint64_t a = 2; a <= 5; ++a)
    for(uint64_t b = a; b <= 5; ++b) {
      std::vector<ES> set{{2, a, 0}, {2, b, 1}};
      auto g = gens(set);
      mc::words(int(g.size()), 1, L, [&](std::vector<int> const& v) {
        Word w;
        for(int i : v)
          w.push_back(g[i]);
        word_case(cx, set, w, true);
      });
    }
}
FAMILY(spin_huge) {
  std::vector<uint64_t> ms{255, 256, 257, 1000, 32768, 32769, 46341, 46342, 65535, 65536, 65537, 92682, 92683, 131072, 131073, 1048577, 2147483646, 2147483647};
  cx.bound(mc::str("spins with 2S+1 = ", mc::vec_str(ms), " between other degrees of freedom: all words up to length ", cx.pick(2, 3), " on states at both ends, in the middle and at powers of two"));
  for(uint64_t m : ms)
    mc::words(3, 1, cx.pick(2, 3), [&](std::vector<int> const& v) {
      Word w;
      for(int i : v)
        w.push_back(S(i, m, 1));
      std::vector<ES> set{{0, 2, 0}, {1, 4, 0}, {2, m, 1}, {2, 3, 0}};
      cx.test([&] { return set_str(set) + word_str(w); },
              [&] {
                auto e = to_expr<double>(w);
                HS hs = build(set);
                Layout l = layout(set);
                auto op = make_loperator(e, hs);
                int at = slot(l, S(0, m, 1)), other = slot(l, S(0, 3, 0)), b = slot(l, B(0, 0));
                std::set<uint64_t> ns;
                for(uint64_t c : {uint64_t(0), (m - 1) / 2, m - 1})
                  for(uint64_t n = c < 3 ? 0 : c - 3; n < m && n <= c + 3; ++n)
                    ns.insert(n);
                for(uint64_t n = 4; n < m; n *= 2) {
                  ns.insert(n - 1);
                  ns.insert(n);
                  ns.insert(n + 1 < m ? n + 1 : n);
                }
                uint64_t h = m;
                for(uint64_t n : ns)
                  for(uint64_t rest = 0; rest < 2; ++rest) {
                    Occ o(4, rest);
                    o[at] = n;
                    o[other] = 2 * rest;
                    o[b] = 3 * rest;
                    uint64_t in = encode(l, o);
                    sparse_state_vector<double> src(get_vec_size(hs)), dst(get_vec_size(hs));
                    src[in] = 1;
                    dst[in ^ 1] = 7;
                    op(src, dst);
                    check_scaled_col(l, dst, {{1, w}}, to_sum(e), 1, in, "action");
                    cx.trans();
                    h = mc::hcomb(h, mc::hcomb(in, hash(column(l, {{1, w}}, in))));
                  }
                cx.state(mc::hcomb(refhs::hash(l), h));
                cx.validated();
              });
    });
}
FAMILY(spin_large) {
  cx.bound("spins with 2S+1 = 20..60 (across the table of 128 square roots): all words up to length 2 and third powers, every state");
  for(uint64_t m : {20, 21, 22, 23, 24, 30, 31, 33, 59, 60}) {
    std::vector<ES> set{{2, m, 0}, {0, 2, 0}};
    mc::words(3, 1, 2, [&](std::vector<int> const& v) {
      Word w;
      for(int i : v)
        w.push_back(S(i, m, 0));
      word_case(cx, set, w, true);
    });
    for(int c = 0; c < 3; ++c)
      word_case(cx, set, Word(3, S(c, m, 0)), true);
  }
}
// --- mixtures ---------------------------------------------------------------------
FAMILY(mixed) {
  int L = cx.pick(3, 4), N = cx.pick(3, 4);
  cx.bound(mc::str("all subsets of up to ", N, " of {f0,f1,b3,b2,b5,s2,s3,s4}; all words up to length ", L, " (", N, " factors: 3) over their generators; operators act on every valid state"));
  std::vector<ES> pool{{0, 2, 0}, {0, 2, 1}, {1, 3, 0}, {1, 2, 1}, {1, 5, 2}, {2, 2, 0}, {2, 3, 0}, {2, 4, 1}};
  subsets(pool, N, [&](std::vector<ES> const& set) {
    auto g = gens(set);
    mc::words(int(g.size()), 0, int(set.size()) <= 2 ? L : std::min(L, 3) - (set.size() >= 4 ? 1 : 0), [&](std::vector<int> const& v) {
      Word w;
      for(int i : v)
        w.push_back(g[i]);
      bool has_b = false;
      for(auto const& o : w)
        has_b = has_b || o.kind == 1;
      word_case(cx, set, w, !has_b);
    });
  });
}
// sums of monomials with coefficients, several scalar types
FAMILY(sums) {
  cx.bound("all sums of up to 3 terms out of a pool of 14 mixed monomials, coefficients real, complex and integer, state amplitudes real and complex");
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {1, 3, 0}, {2, 2, 0}, {2, 3, 1}};
  std::vector<Word> pool{{}, {F(1, 0), F(0, 1)}, {F(1, 1), F(0, 0)}, {F(1, 0), F(0, 0)}, {F(1, 0)}, {F(0, 1)}, {B(1, 0)}, {B(0, 0)}, {B(1, 0), B(0, 0)},
                         {S(0, 2, 0)}, {S(2, 3, 1), S(2, 3, 1)}, {S(1, 3, 1), S(0, 2, 0)}, {F(1, 1), B(0, 0)}, {F(0, 0), S(2, 2, 0), S(1, 3, 1)}};
  int n = int(pool.size());
  for(int i = 0; i < n; ++i)
    for(int j = i; j < n; ++j)
      for(int k = j; k < n; ++k)
        cx.test([&] { return mc::str("terms ", i, ",", j, ",", k); },
                [&] {
                  HS hs = build(set);
                  Layout l = layout(set);
                  auto in = states(l);
                  int t[3] = {i, j, k};
                  cd c[3] = {{2, -1}, {-3, 0.5}, {0, 1}};
                  expression<double, int> er;
                  expression<cd, int> ec;
                  Sum sr, sc;
                  for(int q = 0; q < 3; ++q) {
                    er += c[q].real() * to_expr<double>(pool[t[q]]);
                    ec += c[q] * to_expr<cd>(pool[t[q]]);
                    sr.emplace_back(c[q].real(), pool[t[q]]);
                    sc.emplace_back(c[q], pool[t[q]]);
                  }
                  check_op<double, double>(cx, hs, l, er, sr, in, "real");
                  check_op<double, cd>(cx, hs, l, er, sr, in, "real on complex");
                  check_op<cd, cd>(cx, hs, l, ec, sc, in, "complex");
                });
}
FAMILY(integer_scalars) {
  cx.bound("all words up to length 3 over 3 fermions and a two-level boson with scalar types int and long");
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {1, 2, 0}};
  auto g = gens(set);
  mc::words(int(g.size()), 0, 3, [&](std::vector<int> const& v) {
    Word w;
    for(int i : v)
      w.push_back(g[i]);
    cx.test([&] { return word_str(w); },
            [&] {
              HS hs = build(set);
              Layout l = layout(set);
              auto e = to_expr<int>(w);
              check_op<int, int>(cx, hs, l, e, to_sum(to_expr<double>(w)), states(l), "int");
              auto e2 = to_expr<long>(w);
              check_op<long, long>(cx, hs, l, e2, to_sum(to_expr<double>(w)), states(l), "long");
            });
  });
}
// --- every bit position -----------------------------------------------------------------
FAMILY(wide_fermions) {
  cx.bound("spaces of 31..63 fermionic modes: all monomials with up to 2 creation and 2 annihilation operators on modes {0,1,15,30,31,32,33,47,M-2,M-1}; all patterns of the touched modes over backgrounds empty/full/alternating");
  for(int M : {31, 32, 33, 34, 48, 62, 63}) {
    std::vector<int> modes;
    for(int m : {0, 1, 15, 30, 31, 32, 33, 47, M - 2, M - 1})
      if(m < M && std::find(modes.begin(), modes.end(), m) == modes.end()) modes.push_back(m);
    std::sort(modes.begin(), modes.end());
    std::vector<ES> set;
    for(int i = 0; i < M; ++i)
      set.push_back({0, 2, i});
    int n = int(modes.size());
    std::vector<std::vector<int>> picks{{}};
    for(int i = 0; i < n; ++i)
      picks.push_back({modes[i]});
    for(int i = 0; i < n; ++i)
      for(int j = i + 1; j < n; ++j)
        picks.push_back({modes[i], modes[j]});
    for(auto const& cr : picks)
      for(auto const& an : picks) {
        if(!cx.thorough() && cr.size() == 2 && an.size() == 2 && (cr[0] + an[1] + M) % 3) continue;
        cx.test([&] { return mc::str(M, " modes, create ", mc::vec_str(cr), " annihilate ", mc::vec_str(an)); },
                [&] {
                  static std::map<int, std::pair<HS, Layout>> cache;
                  auto it = cache.find(M);
                  if(it == cache.end()) it = cache.emplace(M, std::make_pair(build(set), layout(set))).first;
                  auto const& hs = it->second.first;
                  auto const& l = it->second.second;
                  Word w;
                  for(int i : cr)
                    w.push_back(F(1, i));
                  for(std::size_t i = an.size(); i-- > 0;)
                    w.push_back(F(0, an[i]));
                  std::vector<int> touched = cr;
                  for(int i : an)
                    if(std::find(touched.begin(), touched.end(), i) == touched.end()) touched.push_back(i);
                  uint64_t all = M == 64 ? ~uint64_t(0) : (uint64_t(1) << M) - 1;
                  std::vector<uint64_t> in;
                  for(uint64_t bg : {uint64_t(0), all, uint64_t(0x5555555555555555ull) & all, uint64_t(0x00000000ffff0000ull) & all, uint64_t(0xdeadbeefcafef00dull) & all})
                    for(int p = 0; p < (1 << touched.size()); ++p) {
                      uint64_t s = bg;
                      for(std::size_t i = 0; i < touched.size(); ++i) {
                        s &= ~(uint64_t(1) << touched[i]);
                        if(p >> i & 1) s |= uint64_t(1) << touched[i];
                      }
                      in.push_back(s);
                    }
                  check_op<double, double>(cx, hs, l, to_expr<double>(w), Sum{{cd(1), w}}, in, word_str(w));
                });
      }
  }
}
FAMILY(high_offsets) {
  cx.bound("bosons, spins and their mixtures placed behind 0..56 fermionic bits (every offset): all words up to length 2 over {b3, b4, s2, s4} and a fermion, all their valid states over two fermionic backgrounds");
  for(int off = 1; off <= 55; ++off) {
    std::vector<ES> set;
    for(int i = 0; i < off; ++i)
      set.push_back({0, 2, i});
    std::vector<ES> tail{{1, 3, 0}, {1, 4, 1}, {2, 2, 0}, {2, 4, 1}};
    auto g = gens(tail);
    g.push_back(F(1, off - 1));
    g.push_back(F(0, off - 1));
    for(auto const& e : tail)
      set.push_back(e);
    int L = (off % 8 == 1 || cx.thorough()) ? 2 : 1;
    mc::words(int(g.size()), 1, L, [&](std::vector<int> const& v) {
      Word w;
      for(int i : v)
        w.push_back(g[i]);
      cx.test([&] { return mc::str(off, " modes in front: ", word_str(w)); },
              [&] {
                static std::map<int, std::pair<HS, Layout>> cache;
                auto it = cache.find(off);
                if(it == cache.end()) it = cache.emplace(off, std::make_pair(build(set), layout(set))).first;
                auto const& l = it->second.second;
                std::vector<uint64_t> in;
                for(uint64_t s : states(layout(tail)))
                  for(uint64_t bg : {uint64_t(0), (uint64_t(1) << off) - 1})
                    in.push_back(s << off | bg);
                auto e = to_expr<double>(w);
                check_op<double, double>(cx, it->second.first, l, e, to_sum(e), in, word_str(w));
              });
    });
  }
}
// --- coefficients and amplitudes of any magnitude -----------------------------------
template <typename S, typename A> static void scaled(mc::Ctx& cx, std::vector<ES> const& set, Sum const& sum) {
  expression<S, int> e;
  for(auto const& t : sum) {
    S c;
    if constexpr(std::is_same<S, cd>::value) c = t.first;
    else
      c = t.first.real();
    e += c * to_expr<S>(t.second);
  }
  HS hs = build(set);
  Layout l = layout(set);
  auto op = make_loperator(e, hs);
  Sum stored = to_sum(e);
  double big = 0;
  for(auto const& t : sum)
    big = std::max(big, std::abs(t.first));
  uint64_t h = 5;
  for(uint64_t in : states(l))
    for(double amp : {1.0, 1 / big, 3e-10, 7e12}) {
      std::vector<A> src(get_vec_size(hs)), dst(get_vec_size(hs), A(7));
      src[in] = A(amp);
      op(src, dst);
      check_scaled_col(l, dst, sum, stored, amp, in, "std::vector");
      sparse_state_vector<A> ssrc(get_vec_size(hs)), sdst(get_vec_size(hs));
      ssrc[in] = A(amp);
      op(ssrc, sdst);
      check_scaled_col(l, sdst, sum, stored, amp, in, "sparse vector");
      cx.trans(2);
      h = mc::hcomb(h, hash(column(l, sum, in)));
    }
  cx.state(mc::hcomb(refhs::hash(l), h));
  cx.validated();
}
FAMILY(magnitudes) {
  int L = cx.pick(2, 3);
  cx.bound(mc::str("u + s*v and s*u + s*v for all words u, v up to length ", L, " (v: 2) over the generators of 6 spaces, s from ", mc::vec_str(magnitudes()), ", applied to amplitudes 1, 1/s, 3e-10 and 7e12, relative comparison"));
  std::vector<std::vector<ES>> sets{{{0, 2, 0}, {0, 2, 1}}, {{1, 5, 0}}, {{2, 2, 0}, {0, 2, 0}}, {{2, 4, 0}}, {{1, 3, 0}, {0, 2, 0}}, {{1, 3, 0}, {2, 3, 0}}};
  for(auto const& set : sets) {
    auto g = gens(set);
    auto ordered = [](Word const& w) {
      for(std::size_t i = 0; i < w.size(); ++i)
        for(std::size_t j = i + 1; j < w.size(); ++j)
          if(w[i].kind == 1 && w[j].kind == 1 && w[i].comp == 0 && w[j].comp == 1) return false;
      return true;
    };
    std::vector<Word> us, vs;
    mc::words(int(g.size()), 0, L, [&](std::vector<int> const& wi) {
      Word w;
      for(int i : wi)
        w.push_back(g[i]);
      if(!ordered(w)) return;
      us.push_back(w);
      if(w.size() < 3) vs.push_back(w);
    });
    for(std::size_t i = 0; i < us.size(); ++i)
      for(std::size_t j = 0; j < vs.size(); ++j)
        for(std::size_t c = 0; c < magnitudes().size(); ++c) {
          if(us.size() > 20 && !cx.thorough() && (i + j + c) % 3) continue;
          cx.test([&] { return mc::str(set_str(set), word_str(us[i]), "and ", word_str(vs[j]), ", factor ", magnitudes()[c]); },
                  [&] {
                    double s = magnitudes()[c];
                    scaled<double, double>(cx, set, {{1, us[i]}, {s, vs[j]}});
                    scaled<double, cd>(cx, set, {{s, us[i]}, {2 * s, vs[j]}});
                    scaled<cd, cd>(cx, set, {{cd(0, s), us[i]}, {cd(s, -s), vs[j]}});
                  });
        }
  }
}
