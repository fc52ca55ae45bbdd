// C28: connections between subspaces are reported exactly
#include "refpart.hpp"
using namespace refpart;

static Sum one(Op o) { return Sum{{1, {o}}}; }
static Sum w2(Op a, Op b) { return Sum{{1, {a, b}}}; }
static Sum herm(Sum const& s) { return s + dag(s); }

struct Model {
  std::vector<ES> set;
  std::vector<Sum> hams, merges;
};
static std::vector<Model> const& models() {
  static std::vector<Model> all = [] {
    std::vector<Model> r;
    Sum id{{1, {}}};
    r.push_back({{{0, 2, 0}}, {Sum{}, herm(one(F(1, 0)))}, {one(F(0, 0))}});
    r.push_back({{{0, 2, 0}, {0, 2, 1}}, {Sum{}, id, herm(w2(F(1, 0), F(0, 1))), herm(w2(F(1, 0), F(1, 1)))}, {one(F(0, 0)), w2(F(1, 0), F(0, 1)), one(F(0, 0)) + one(F(0, 1))}});
    r.push_back({{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}}, {Sum{}, herm(w2(F(1, 0), F(0, 1))), herm(w2(F(1, 0), F(0, 1)) + w2(F(1, 1), F(0, 2))), herm(w2(F(1, 0), F(1, 2)))}, {one(F(0, 0)), w2(F(1, 0), F(0, 2)), one(F(0, 0)) + one(F(0, 1))}});
    r.push_back({{{1, 3, 0}, {0, 2, 0}}, {Sum{}, herm(w2(B(1, 0), F(0, 0))), herm(w2(B(1, 0), B(1, 0))), herm(one(B(1, 0)))}, {one(B(0, 0)), one(F(0, 0)), w2(B(0, 0), B(0, 0)) + one(B(1, 0))}});
    r.push_back({{{2, 2, 0}, {2, 3, 0}}, {Sum{}, herm(w2(S(0, 2, 0), S(1, 3, 0))), herm(w2(S(0, 3, 0), S(0, 3, 0))), w2(S(2, 2, 0), S(2, 3, 0))}, {one(S(0, 2, 0)), one(S(0, 3, 0)), w2(S(0, 2, 0), S(1, 3, 0))}});
    r.push_back({{{0, 2, 0}, {1, 3, 0}, {2, 3, 0}}, {Sum{}, herm(w2(B(1, 0), S(1, 3, 0))), herm(w2(F(1, 0), B(0, 0)))}, {one(F(0, 0)), one(B(0, 0)), one(S(0, 3, 0))}});
    r.push_back({{{1, 5, 0}, {1, 3, 1}}, {Sum{}, herm(w2(B(1, 0), B(0, 1))), herm(w2(B(1, 0), B(1, 0)))}, {one(B(0, 0)), one(B(0, 1)), w2(B(0, 1), B(0, 1))}});
    return r;
  }();
  return all;
}
template <typename Sc, typename Space> static void compare(mc::Ctx& cx, space_partition<Space> const& sp, Layout const& l, HS const& hs, std::vector<uint64_t> const& st, std::vector<uint64_t> const& num, Sum const& op, double zero = 1e-9) {
  connections_map exp;
  for(auto const& e : matrix(l, op, st, zero))
    exp.insert({num[e.first.second], num[e.first.first]});
  connections_map got = sp.find_connections(oper<Sc>(op, hs));
  for(auto const& p : exp)
    MC_CHECK(got.count(p), "connection ", p.first, " -> ", p.second, " of ", sum_str(op), " is missing");
  for(auto const& p : got)
    MC_CHECK(exp.count(p), "connection ", p.first, " -> ", p.second, " of ", sum_str(op), " does not exist");
  uint64_t h = hash(l);
  for(auto const& p : got)
    h = mc::hcomb(h, mc::hcomb(p.first, p.second));
  cx.state(h);
  cx.trans(st.size());
  cx.validated();
}
// A partition (after a history of merges) with everything that is looked at
template <typename Space> struct Fixture {
  Layout l;
  HS hs;
  std::vector<uint64_t> st, num;
  Space space;
  std::unique_ptr<space_partition<Space>> sp;
  std::vector<std::vector<sv_index_type>> bases;
  Fixture(std::vector<ES> const& set, std::vector<uint64_t> const& st, Space const& space, Sum const& h, std::vector<Sum> const& merges)
    : l(layout(set)), hs(build(set)), st(st), space(space) {
    sp.reset(new space_partition<Space>(oper<cd>(h, hs), this->space));
    for(auto const& m : merges)
      sp->merge_subspaces(oper<cd>(dag(m), hs), oper<cd>(m, hs), false);
    bases = sp->subspace_bases();
    num.assign(std::max<std::size_t>(1 << 12, st.empty() ? 0 : st.back() + 1), 0);
    for(auto s : st)
      num[s] = (*sp)[s];
  }
  void unchanged() const {
    MC_CHECK(sp->subspace_bases() == bases, "find_connections() changed the partition");
    for(auto s : st)
      MC_CHECK((*sp)[s] == num[s], "find_connections() changed the subspace of state ", s);
  }
};
// f(name, hamiltonian, merges)
static void partitions(Model const& m, int depth, std::function<void(std::string, Sum const&, std::vector<Sum> const&)> f) {
  for(std::size_t h = 0; h < m.hams.size(); ++h)
    mc::words(int(m.merges.size()), 0, depth, [&](std::vector<int> const& w) {
      if(w.size() == 2 && w[0] == w[1]) return;
      std::vector<Sum> s;
      std::string n = mc::str(set_str(m.set), " H = ", sum_str(m.hams[h]), " merges");
      for(int i : w) {
        s.push_back(m.merges[i]);
        n += " | " + sum_str(m.merges[i]);
      }
      f(n, m.hams[h], s);
    });
}
FAMILY(words) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("7 models x all Hamiltonians of a pool x all histories of up to 2 merges; connections of every word up to length ", L, " over the generators; real and complex operators"));
  for(auto const& m : models())
    partitions(m, 2, [&](std::string const& name, Sum const& h, std::vector<Sum> const& merges) {
      auto g = generators(m.set);
      // one case per first letter
      for(int z = 0; z < 2; ++z)
        for(int first = -1; first < int(g.size()); ++first)
          cx.test([&] { return mc::str(name, ", words starting with ", first < 0 ? std::string("nothing") : word_str({g[first]}), z ? " complex" : ""); },
                  [&] {
                    Fixture<HS> fx(m.set, states(layout(m.set)), build(m.set), h, merges);
                    mc::words(int(g.size()), 0, first < 0 ? 0 : g.size() > 7 ? L - 2 : L - 1, [&](std::vector<int> const& wi) {
                      Word w;
                      if(first >= 0) w.push_back(g[first]);
                      for(int i : wi)
                        w.push_back(g[i]);
                      if(!boson_ordered(w)) return;
                      if(z) compare<cd>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, Sum{{cd(0, 2), w}});
                      else
                        compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, Sum{{-0.5, w}});
                    });
                    fx.unchanged();
                  });
    });
}
FAMILY(sums) {
  cx.bound("same partitions; connections of all sums c1*w1 + c2*w2 over words up to length 2, c2/c1 from {1, -1, 2, -i}, and of projected sums (1 - n)*w in which the monomials cancel on part of the states");
  for(auto const& m : models())
    partitions(m, cx.pick(1, 2), [&](std::string const& name, Sum const& h, std::vector<Sum> const& merges) {
      auto g = generators(m.set);
      std::vector<Word> ws;
      mc::words(int(g.size()), 0, 2, [&](std::vector<int> const& wi) {
        Word w;
        for(int i : wi)
          w.push_back(g[i]);
        if(boson_ordered(w)) ws.push_back(w);
      });
      int step = cx.pick(ws.size() > 40 ? 5 : ws.size() > 20 ? 2 : 1, 1);
      for(std::size_t i = 0; i < ws.size(); ++i)
        cx.test([&] { return mc::str(name, ", sums with ", word_str(ws[i])); },
                [&] {
                  Fixture<HS> fx(m.set, states(layout(m.set)), build(m.set), h, merges);
                  for(std::size_t j = 0; j < ws.size(); ++j) {
                    if((i + j) % step) continue;
                    for(int c = 0; c < 4; ++c) {
                      static cd const cs[] = {1, -1, 2, cd(0, -1)};
                      Sum s{{1, ws[i]}, {cs[c], ws[j]}};
                      if(c < 3) compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, s);
                      else
                        compare<cd>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, s);
                    }
                  }
                  // (1 - n_k) w and w (1 - n_k)
                  for(auto const& e : m.set) {
                    Sum n = e.kind == 0 ? w2(F(1, e.idx), F(0, e.idx)) : e.kind == 1 ? w2(B(1, e.idx), B(0, e.idx)) : one(S(2, e.par, e.idx));
                    Sum p = Sum{{1, {}}} + cd(-1) * n, w{{1, ws[i]}};
                    for(auto const& s : {p * w, w * p, p * w + w * p, p * p * w}) {
                      bool ok = true;
                      for(auto const& t : s)
                        ok = ok && boson_ordered(t.second);
                      if(ok) compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, s);
                    }
                  }
                  fx.unchanged();
                });
    });
}
static Sum ketbra(int modes, int i, int j) {
  Sum s{{1, {}}};
  for(int m = 0; m < modes; ++m) {
    int a = i >> m & 1, b = j >> m & 1;
    s = s * (a && b ? w2(F(1, m), F(0, m)) : a ? one(F(1, m)) : b ? one(F(0, m)) : w2(F(0, m), F(1, m)));
  }
  return s;
}
FAMILY(digraphs) {
  cx.bound("4 states: all 64 Hamiltonian graphs x operators given by all 65536 directed graphs (quick: those with up to 4 edges)");
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}};
  for(int hm = 0; hm < 64; ++hm)
    for(int hi = 0; hi < 16; ++hi)
      cx.test([&] { return mc::str("H graph ", hm, ", operators ", hi, "/16"); },
              [&] {
                Sum h;
                int k = 0;
                for(int i = 0; i < 4; ++i)
                  for(int j = 0; j < i; ++j, ++k)
                    if(hm >> k & 1) h = h + herm(ketbra(2, i, j));
                Fixture<HS> fx(set, states(layout(set)), build(set), h, {});
                for(int mask = hi; mask < 65536; mask += 16) {
                  int n = __builtin_popcount(mask);
                  if(n > cx.pick(4, 16) || (n == 4 && !cx.thorough() && hm % 9)) continue;
                  Sum s;
                  for(int b = 0; b < 16; ++b)
                    if(mask >> b & 1) s = s + cd(b % 2 ? -1 : 1) * ketbra(2, b / 4, b % 4);
                  compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, s);
                }
                fx.unchanged();
              });
}
FAMILY(user_spaces) {
  cx.bound("Hilbert spaces of a user: every union of particle-number sectors of 4 modes, 3 orders; one-, two- and pair-hopping operators and their sums on partitions by 4 Hamiltonians, before and after a merge");
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}};
  std::vector<Sum> hams{Sum{}, herm(w2(F(1, 0), F(0, 1))), herm(w2(F(1, 0), F(0, 1)) + w2(F(1, 2), F(0, 3))), herm(w2(F(1, 0), F(0, 3)) + w2(F(1, 1), F(0, 3)))};
  std::vector<Sum> ops;
  for(int i = 0; i < 4; ++i)
    for(int j = 0; j < 4; ++j)
      ops.push_back(w2(F(1, i), F(0, j)));
  ops.push_back(Sum{{1, {F(1, 0), F(1, 1), F(0, 2), F(0, 3)}}});
  ops.push_back(Sum{{1, {F(1, 1), F(1, 3), F(0, 2), F(0, 0)}}});
  ops.push_back(Sum{{3, {}}});
  ops.push_back(Sum{});
  ops.push_back(w2(F(1, 0), F(0, 1)) + cd(-1) * Sum{{1, {F(1, 0), F(0, 1), F(1, 2), F(0, 2)}}});
  for(int sectors = 1; sectors < 32; ++sectors)
    for(int order = 0; order < 3; ++order)
      for(std::size_t h = 0; h < hams.size(); ++h)
        for(int mg = 0; mg < 2; ++mg)
          cx.test([&] { return mc::str("sectors ", sectors, " order ", order, " H = ", sum_str(hams[h]), mg ? " merged" : ""); },
                  [&] {
                    ListSpace ls;
                    ls.vec_size = 16;
                    for(uint64_t s = 0; s < 16; ++s)
                      if(sectors >> __builtin_popcountll(s) & 1) ls.list.push_back(s);
                    auto st = std::vector<uint64_t>(ls.list.begin(), ls.list.end());
                    if(order == 1) std::reverse(ls.list.begin(), ls.list.end());
                    if(order == 2) std::sort(ls.list.begin(), ls.list.end(), [](uint64_t a, uint64_t b) { return (a ^ 5) < (b ^ 5); });
                    std::vector<Sum> mergers;
                    if(mg) mergers = {w2(F(1, 1), F(0, 2))};
                    Fixture<ListSpace> fx(set, st, ls, hams[h], mergers);
                    for(std::size_t i = 0; i < ops.size(); ++i)
                      for(std::size_t j = 0; j <= i; ++j) {
                        compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, ops[i] + cd(-1) * ops[j]);
                        compare<cd>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, cd(0, 1) * ops[i] + cd(2) * ops[j]);
                      }
                    fx.unchanged();
                  });
}
FAMILY(chains) {
  int M = cx.pick(8, 10);
  cx.bound(mc::str("fermion chains with up to ", M, " modes, boson ladders with up to 9 levels and 4 spins, ladder operators, densities and their sums"));
  for(int n = 2; n <= M; ++n)
    for(int kind = 0; kind < 3; ++kind)
      cx.test([&] { return mc::str(n, " modes, kind ", kind); },
              [&] {
                std::vector<ES> set;
                Sum h;
                for(int i = 0; i < n; ++i)
                  set.push_back({0, 2, i});
                for(int i = 0; i + 1 < n; ++i) {
                  Sum t;
                  if(kind == 0) t = w2(F(1, i), F(0, i + 1));
                  if(kind == 1 && i + 2 < n) t = w2(F(1, i), F(0, i + 2));
                  if(kind == 2 && i % 2 == 0) t = w2(F(1, i), F(1, i + 1));
                  h = h + t + dag(t);
                }
                Fixture<HS> fx(set, states(layout(set)), build(set), h, {});
                Sum all, den;
                for(int i = 0; i < n; ++i) {
                  compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, one(F(0, i)));
                  compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, w2(F(1, i), F(0, (i + 1) % n)));
                  all = all + one(F(i % 2, i));
                  den = den + w2(F(1, i), F(0, i));
                }
                compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, all);
                compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, den);
                compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, den + cd(-2) * Sum{{1, {}}});
                fx.unchanged();
              });
  for(int d = 1; d <= 9; ++d)
    for(int hp = 0; hp <= 3; ++hp)
      cx.test([&] { return mc::str("boson d=", d, ", H = a^", hp, " + h.c."); },
              [&] {
                auto pw = [](int c, int a) { Word w(c, B(1, 0)); w.insert(w.end(), a, B(0, 0)); return Sum{{1, w}}; };
                Fixture<HS> fx({{1, uint64_t(d), 0}, {2, 2, 0}}, states(layout({{1, uint64_t(d), 0}, {2, 2, 0}})), build({{1, uint64_t(d), 0}, {2, 2, 0}}), herm(pw(hp, 0)), {});
                for(int a = 0; a < 5; ++a)
                  for(int b = 0; b < 5; ++b) {
                    compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, pw(a, b));
                    compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, pw(a, b) * one(S(0, 2, 0)) + cd(2) * pw(b, a));
                    // n - k annihilates states with k quanta
                    compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, pw(1, 1) + cd(-a) * pw(0, 0));
                  }
                fx.unchanged();
              });
}
// Small matrix elements connect, too. Large multiples of products of spin
// operators on one site are left out: rounding errors of sqrt() do not cancel.
static bool spin_product(Word const& w) { return w.size() == 2 && w[0].kind == 2 && w[1].kind == 2 && w[0].idx == w[1].idx && w[0].mult == w[1].mult; }
FAMILY(magnitudes) {
  cx.bound(mc::str("same models and partitions; connections of u + s*v and s*(u + v) over words u, v up to length 2, s from ", mc::vec_str(magnitudes())));
  for(auto const& m : models())
    partitions(m, cx.pick(1, 2), [&](std::string const& name, Sum const& h, std::vector<Sum> const& merges) {
      auto g = generators(m.set);
      std::vector<Word> ws;
      mc::words(int(g.size()), 0, 2, [&](std::vector<int> const& wi) {
        Word w;
        for(int i : wi)
          w.push_back(g[i]);
        if(boson_ordered(w)) ws.push_back(w);
      });
      std::size_t step = cx.pick(ws.size() > 40 ? 29 : ws.size() > 20 ? 7 : 1, ws.size() > 40 ? 7 : 1);
      for(std::size_t i = 0; i < ws.size(); ++i)
        cx.test([&] { return mc::str(name, ", sums with ", word_str(ws[i])); },
                [&] {
                  Fixture<HS> fx(m.set, states(layout(m.set)), build(m.set), h, merges);
                  for(std::size_t j = 0; j < ws.size(); ++j)
                    for(std::size_t c = 0; c < magnitudes().size(); ++c)
                      for(int both = 0; both < 2; ++both) {
                        if((i + j + c) % step) continue;
                        double s = magnitudes()[c];
                        if(s > 1 && (spin_product(ws[i]) || spin_product(ws[j]))) continue;
                        Sum x = both ? Sum{{s, ws[i]}, {s, ws[j]}} : Sum{{1, ws[i]}, {s, ws[j]}};
                        if(both && j % 2) compare<cd>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, cd(0, 1) * x, tiny);
                        else
                          compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, x, tiny);
                      }
                  fx.unchanged();
                });
    });
}

FAMILY(many_subspaces) {
  cx.bound(mc::str("partitions into hundreds and thousands of subspaces (up to ", cx.pick(2048, 4096), " states, see C26): connections of every generator, of products and sums of two"));
  for(auto const& m : many_subspaces(cx.thorough()))
    cx.test([&] { return m.name; },
            [&] {
              Fixture<HS> fx(m.set, states(layout(m.set)), build(m.set), m.h, {});
              for(auto const& s : probes(m.set))
                compare<double>(cx, *fx.sp, fx.l, fx.hs, fx.st, fx.num, s);
              fx.unchanged();
            });
}
