// C27: merging makes pairs of conjugate operators connect subspaces one-to-one
// and merges no more than that
#include "refpart.hpp"
using namespace refpart;

using Mats = std::vector<Mat>;
// Coarsest merging forced by the operators: all destinations of one source
// subspace belong together
static void closure(Labels& lab, Mats const& ops) {
  bool again = true;
  while(again) {
    again = false;
    for(auto const& m : ops) {
      std::map<uint64_t, uint64_t> dest;
      for(auto const& e : m) {
        auto it = dest.emplace(lab.at(e.first.second), e.first.first).first;
        if(join(lab, it->second, e.first.first)) again = true;
        if(again) break;
      }
    }
  }
}
static void one_to_one(connections_map const& c, std::string const& what) {
  std::set<uint64_t> from, to;
  for(auto const& p : c) {
    MC_CHECK(from.insert(p.first).second, what, " connects subspace ", p.first, " to several subspaces");
    MC_CHECK(to.insert(p.second).second, what, " connects several subspaces to ", p.second);
  }
}
template <typename Sc> struct History {
  Layout l;
  HS hs;
  std::vector<uint64_t> st;
  Labels lab;
  Mats mats;
  std::vector<Sum> done;
  History(std::vector<ES> const& set, std::vector<uint64_t> const& st) : l(layout(set)), hs(build(set)), st(st) {}
};
template <typename Sc, typename Space> static void run(mc::Ctx& cx, std::vector<ES> const& set, std::vector<uint64_t> const& st, Space const& space, Sum const& h, std::vector<Sum> const& seq, int mode = 0, double zero = 1e-9) {
  History<Sc> H(set, st);
  H.lab = blocks(matrix(H.l, h, st, zero), st);
  space_partition<Space> sp(oper<Sc>(h, H.hs), space);
  std::string what = "no merges";
  check_partition(sp, H.lab, what);
  for(std::size_t i = 0; i < seq.size(); ++i) {
    Sum cs = seq[i], cds = dag(seq[i]);
    Mat mc_ = matrix(H.l, cs, st, zero), mcd = matrix(H.l, cds, st, zero);
    auto C = oper<Sc>(cs, H.hs), Cd = oper<Sc>(cds, H.hs);
    bool store = mode != 1;
    auto r = mode == 2 ? sp.merge_subspaces(Cd, C) : sp.merge_subspaces(Cd, C, store);
    H.mats.push_back(mcd);
    H.mats.push_back(mc_);
    closure(H.lab, H.mats);
    what = mc::str("after merge ", i + 1, " with ", sum_str(cs));
    if(store) {
      check_elements(r.first, mcd, what + " (first)", zero < 1e-9);
      check_elements(r.second, mc_, what + " (second)", zero < 1e-9);
    } else
      MC_CHECK(r.first.empty() && r.second.empty(), what, ": matrix elements stored though not requested");
    // one-to-one for this and all earlier pairs, as seen by the user
    for(std::size_t j = 0; j <= i; ++j) {
      one_to_one(sp.find_connections(oper<Sc>(seq[j], H.hs)), what + ": " + sum_str(seq[j]));
      one_to_one(sp.find_connections(oper<Sc>(dag(seq[j]), H.hs)), what + ": conjugate of " + sum_str(seq[j]));
    }
    check_partition(sp, H.lab, what);
    cx.trans(st.size() * 2);
    cx.state(hash(H.lab));
  }
  cx.validated();
}
template <typename Sc> static void run_hs(mc::Ctx& cx, std::vector<ES> const& set, Sum const& h, std::vector<Sum> const& seq, int mode = 0, double zero = 1e-9) {
  Layout l = layout(set);
  HS hs = build(set);
  run<Sc>(cx, set, states(l), hs, h, seq, mode, zero);
}
static std::string seq_str(std::vector<Sum> const& seq) {
  std::string s;
  for(auto const& x : seq)
    s += " | " + sum_str(x);
  return s;
}
struct Model {
  std::vector<ES> set;
  std::vector<Sum> hams, ops;
};
static Sum one(Op o) { return Sum{{1, {o}}}; }
static Sum w2(Op a, Op b) { return Sum{{1, {a, b}}}; }
static Sum herm(Sum const& s) { return s + dag(s); }
static std::vector<Model> const& models() {
  static std::vector<Model> all = [] {
    std::vector<Model> r;
    { // 3 modes
      Model m;
      m.set = {{0, 2, 0}, {0, 2, 1}, {0, 2, 2}};
      m.hams = {Sum{}, Sum{{1, {}}}, herm(w2(F(1, 0), F(0, 1))), herm(w2(F(1, 0), F(0, 1)) + w2(F(1, 1), F(0, 2))), herm(w2(F(1, 0), F(1, 2))), w2(F(1, 1), F(0, 1)), herm(Sum{{1, {F(1, 0), F(0, 2), F(1, 1), F(0, 1)}}}), herm(one(F(0, 1)))};
      for(int i = 0; i < 3; ++i)
        m.ops.push_back(one(F(0, i)));
      m.ops.push_back(w2(F(1, 0), F(0, 1)));
      m.ops.push_back(w2(F(1, 1), F(0, 2)));
      m.ops.push_back(w2(F(0, 0), F(0, 2)));
      m.ops.push_back(one(F(0, 0)) + one(F(0, 1)));
      m.ops.push_back(one(F(1, 0)) + cd(2) * one(F(0, 2)));
      m.ops.push_back(w2(F(1, 0), F(0, 1)) + w2(F(1, 0), F(0, 2)));
      m.ops.push_back(Sum{{1, {F(1, 0), F(0, 0), F(0, 2)}}});
      m.ops.push_back(w2(F(1, 1), F(0, 1)));
      m.ops.push_back(one(F(0, 0)) + one(F(1, 0)));
      m.ops.push_back(Sum{{1, {F(0, 1)}}, {-1, {F(1, 1), F(0, 1), F(0, 0)}}, {1, {F(1, 2), F(0, 2), F(0, 0)}}});
      m.ops.push_back(Sum{});
      r.push_back(m);
    }
    { // boson (sparse) and modes
      Model m;
      m.set = {{1, 3, 0}, {0, 2, 0}, {0, 2, 1}};
      m.hams = {Sum{}, herm(w2(B(1, 0), B(1, 0))), herm(Sum{{1, {B(1, 0), F(0, 1)}}}), herm(w2(F(1, 0), F(0, 1))), herm(one(B(1, 0))), w2(B(1, 0), B(0, 0))};
      m.ops = {one(B(0, 0)), one(F(0, 0)), one(F(0, 1)), w2(B(1, 0), F(0, 0)), w2(B(0, 0), F(0, 1)), w2(B(0, 0), B(0, 0)), one(B(0, 0)) + one(B(1, 0)), one(B(0, 0)) + one(F(0, 0)), w2(B(1, 0), F(0, 0)) + w2(B(0, 0), F(1, 0)), w2(F(1, 0), F(0, 1)) + one(B(1, 0)), w2(B(0, 0), B(0, 0)) + one(B(1, 0))};
      r.push_back(m);
    }
    { // spins (sparse)
      Model m;
      m.set = {{2, 2, 0}, {2, 3, 0}, {2, 2, 1}};
      Op a = S(0, 2, 0), b = S(0, 3, 0), c = S(0, 2, 1), az = S(2, 2, 0), bz = S(2, 3, 0), am = S(1, 2, 0), bm = S(1, 3, 0), cm = S(1, 2, 1);
      m.hams = {Sum{}, herm(w2(a, bm)), herm(w2(a, cm)), herm(w2(b, b)), w2(az, bz), herm(w2(a, bm) + w2(cm, b)), herm(one(a))};
      m.ops = {one(a), one(b), one(c), w2(a, b), w2(a, bm), w2(b, cm), w2(b, b), one(a) + one(c), one(a) + one(b), w2(a, bz), one(b) + one(bm), w2(b, b) + one(bm), w2(a, cm) + w2(b, am)};
      r.push_back(m);
    }
    { // 2 modes and a larger boson
      Model m;
      m.set = {{0, 2, 0}, {0, 2, 1}, {1, 5, 0}};
      m.hams = {Sum{}, herm(Sum{{1, {F(1, 0), F(0, 0), B(1, 0)}}}), herm(w2(F(1, 0), B(0, 0))), herm(w2(F(1, 0), F(0, 1)))};
      m.ops = {one(F(0, 0)), one(F(0, 1)), one(B(0, 0)), w2(B(0, 0), B(0, 0)), Sum{{1, {B(0, 0), B(0, 0), B(0, 0)}}}, w2(F(1, 0), B(0, 0)), one(B(1, 0)) + one(F(0, 0)), w2(B(0, 0), B(0, 0)) + one(F(0, 1)), Sum{{1, {B(0, 0), B(0, 0), B(0, 0)}}} + one(B(0, 0))};
      r.push_back(m);
    }
    return r;
  }();
  return all;
}

FAMILY(histories) {
  int L = cx.pick(2, 3);
  cx.bound(mc::str("4 models (modes, bosons, spins; dense and sparse), every Hamiltonian of a pool, every sequence of up to ", L, " merges (", L + 1, " from a reduced pool) with operator pairs of a pool of 9-14, including operators connecting a subspace to several others; with and without stored matrix elements"));
  for(std::size_t mi = 0; mi < models().size(); ++mi) {
    Model const& m = models()[mi];
    for(std::size_t h = 0; h < m.hams.size(); ++h) {
      auto go = [&](std::vector<int> const& w, int mode) {
        cx.test([&] { std::vector<Sum> s; for(int i : w) s.push_back(m.ops[i]); return mc::str(set_str(m.set), " H = ", sum_str(m.hams[h]), " mode ", mode, " merges", seq_str(s)); },
                [&] {
                  std::vector<Sum> s;
                  for(int i : w)
                    s.push_back(m.ops[i]);
                  run_hs<double>(cx, m.set, m.hams[h], s, mode);
                });
      };
      mc::words(int(m.ops.size()), 1, L, [&](std::vector<int> const& w) { go(w, int(w.size() == 1 ? 2 : 0)); });
      mc::words(int(m.ops.size()), 1, 1, [&](std::vector<int> const& w) { go(w, 0); go(w, 1); });
      // longer histories
      if(!cx.thorough() && h % 3) continue;
      mc::words(int(std::min<std::size_t>(m.ops.size(), 8)), L + 1, L + 1, [&](std::vector<int> const& w) {
        std::set<int> u(w.begin(), w.end());
        if(u.size() == w.size()) go(w, 1);
      });
    }
  }
}
// |i><j| on fermionic modes as a sum of words (up to a sign)
static Sum ketbra(int modes, int i, int j) {
  Sum s{{1, {}}};
  for(int m = 0; m < modes; ++m) {
    int a = i >> m & 1, b = j >> m & 1;
    s = s * (a && b ? w2(F(1, m), F(0, m)) : a ? one(F(1, m)) : b ? one(F(0, m)) : w2(F(0, m), F(1, m)));
  }
  return s;
}
static Sum graph_op(int modes, std::vector<std::pair<int, int>> const& edges, int conj = 0) {
  Sum s;
  for(auto const& e : edges) {
    Sum k = conj ? herm(ketbra(modes, e.second, e.first)) : ketbra(modes, e.second, e.first);
    s.insert(s.end(), k.begin(), k.end());
  }
  return s;
}
static std::string edges_str(std::vector<std::pair<int, int>> const& e) {
  std::string s;
  for(auto const& x : e)
    s += mc::str(" ", x.first, ">", x.second);
  return s;
}
FAMILY(digraphs4) {
  int K = cx.pick(4, 6);
  cx.bound(mc::str("4 states: every Hamiltonian graph with up to 1 edge x every operator given by a directed graph (self-loops allowed) with up to ", K, " edges"));
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}};
  std::vector<std::vector<std::pair<int, int>>> hams{{}};
  for(int i = 0; i < 4; ++i)
    for(int j = 0; j < i; ++j)
      hams.push_back({{i, j}});
  for(auto const& hg : hams)
    for(int mask = 1; mask < 65536; ++mask) {
      int n = __builtin_popcount(mask);
      if(n > K || (n > 3 && hg.size() && !cx.thorough())) continue;
      std::vector<std::pair<int, int>> e;
      for(int k = 0; k < 16; ++k)
        if(mask >> k & 1) e.push_back({k / 4, k % 4});
      cx.test([&] { return "H" + edges_str(hg) + " op" + edges_str(e); }, [&] { run_hs<double>(cx, set, graph_op(2, hg, 1), {graph_op(2, e)}, 0); });
    }
}
FAMILY(digraphs8) {
  int K = cx.pick(2, 3);
  cx.bound(mc::str("8 states: every directed graph with up to ", K, " edges, followed by merges with 4 fixed graphs (fork, chain, cycle, crossing), in both orders; Hamiltonian: none or two edges"));
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}};
  std::vector<std::vector<std::pair<int, int>>> fixed{{{0, 1}, {0, 2}}, {{0, 1}, {1, 2}, {2, 3}}, {{0, 5}, {5, 6}, {6, 0}, {5, 7}}, {{3, 4}, {4, 3}, {1, 6}}};
  std::vector<std::vector<std::pair<int, int>>> hams{{}, {{0, 3}, {5, 7}}};
  std::vector<std::pair<int, int>> cur;
  std::function<void(int)> rec = [&](int from) {
    if(!cur.empty())
      for(std::size_t h = 0; h < hams.size(); ++h)
        for(std::size_t f = 0; f < fixed.size(); ++f)
          for(int order = 0; order < 2; ++order)
            cx.test([&] { return "H" + edges_str(hams[h]) + " ops" + (order ? edges_str(fixed[f]) + " |" + edges_str(cur) : edges_str(cur) + " |" + edges_str(fixed[f])); },
                    [&] {
                      Sum a = graph_op(3, cur), b = graph_op(3, fixed[f]);
                      run_hs<double>(cx, set, graph_op(3, hams[h], 1), order ? std::vector<Sum>{b, a} : std::vector<Sum>{a, b}, 0);
                    });
    if(int(cur.size()) == K) return;
    for(int k = from; k < 64; ++k) {
      cur.push_back({k / 8, k % 8});
      rec(k + 1);
      cur.pop_back();
    }
  };
  rec(0);
}
FAMILY(user_spaces) {
  cx.bound("Hilbert spaces of a user: every union of particle-number sectors of 3 modes listed in 4 orders; merges with density and hopping operators that stay inside, sequences up to 2; complex operators");
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}};
  std::vector<Sum> ops{w2(F(1, 0), F(0, 1)), w2(F(1, 1), F(0, 2)), w2(F(1, 0), F(0, 0)), w2(F(1, 0), F(0, 1)) + w2(F(1, 2), F(0, 1)), cd(0, 1) * w2(F(1, 0), F(0, 2)), Sum{{1, {F(1, 0), F(0, 1), F(1, 2), F(0, 2)}}}, Sum{{cd(0, 2), {}}}};
  std::vector<Sum> hams{Sum{}, herm(w2(F(1, 0), F(0, 1))), w2(F(1, 1), F(0, 1))};
  for(int sectors = 1; sectors < 16; ++sectors)
    for(int order = 0; order < 4; ++order)
      for(std::size_t h = 0; h < hams.size(); ++h)
        mc::words(int(ops.size()), 1, 2, [&](std::vector<int> const& w) {
          cx.test([&] { std::vector<Sum> s; for(int i : w) s.push_back(ops[i]); return mc::str("sectors ", sectors, " order ", order, " H = ", sum_str(hams[h]), " merges", seq_str(s)); },
                  [&] {
                    ListSpace ls;
                    ls.vec_size = 8;
                    for(uint64_t s = 0; s < 8; ++s)
                      if(sectors >> __builtin_popcountll(s) & 1) ls.list.push_back(s);
                    auto st = std::vector<uint64_t>(ls.list.begin(), ls.list.end());
                    if(order == 1) std::reverse(ls.list.begin(), ls.list.end());
                    if(order == 2) std::rotate(ls.list.begin(), ls.list.begin() + ls.list.size() / 2, ls.list.end());
                    if(order == 3) std::sort(ls.list.begin(), ls.list.end(), [](uint64_t a, uint64_t b) { return (a ^ 5) < (b ^ 5); });
                    std::vector<Sum> s;
                    for(int i : w)
                      s.push_back(ops[i]);
                    run<cd>(cx, set, st, ls, hams[h], s, 0);
                  });
        });
}
FAMILY(chains) {
  int M = cx.pick(7, 9);
  cx.bound(mc::str("fermion chains of up to ", M, " modes with 4 Hamiltonians, merging with the annihilation operators of the first k modes for all k, in both orders; ladder of a boson with up to 9 levels merged with powers of the annihilator"));
  for(int n = 2; n <= M; ++n)
    for(int kind = 0; kind < 4; ++kind)
      for(int k = 1; k <= n; ++k)
        for(int rev = 0; rev < 2; ++rev) {
          cx.test([&] { return mc::str(n, " modes, kind ", kind, ", ", k, " merges", rev ? " reversed" : ""); },
                  [&] {
                    std::vector<ES> set;
                    Sum h;
                    for(int i = 0; i < n; ++i)
                      set.push_back({0, 2, i});
                    for(int i = 0; i + 1 < n; ++i) {
                      Sum t;
                      if(kind == 0) t = w2(F(1, i), F(0, i + 1));
                      if(kind == 1 && i + 2 < n) t = w2(F(1, i), F(0, i + 2));
                      if(kind == 2 && i % 2 == 0) t = w2(F(1, i), F(1, i + 1));
                      if(kind == 3 && i + 3 < n) t = Sum{{1, {F(1, i), F(1, i + 1), F(0, i + 2), F(0, i + 3)}}};
                      h = h + t + dag(t);
                    }
                    std::vector<Sum> s;
                    for(int i = 0; i < k; ++i)
                      s.push_back(one(F(0, rev ? n - 1 - i : i)));
                    run_hs<double>(cx, set, h, s, 1);
                  });
        }
  for(int d = 1; d <= 9; ++d)
    for(int p = 1; p <= 4; ++p)
      for(int q = 1; q <= 4; ++q)
        for(int hp = 0; hp <= 4; ++hp)
          cx.test([&] { return mc::str("boson d=", d, ": H = a^", hp, " + h.c., merges a^", p, ", a^", q); },
                  [&] {
                    auto pw = [](int k) { return Sum{{1, Word(k, B(0, 0))}}; };
                    run_hs<double>(cx, {{1, uint64_t(d), 0}, {0, 2, 0}}, herm(pw(hp)), {pw(p), pw(q)}, 0);
                    run_hs<double>(cx, {{1, uint64_t(d), 0}, {0, 2, 0}}, herm(pw(hp)), {pw(p) + dag(pw(q)) + w2(F(1, 0), B(0, 0))}, 0);
                  });
}
// Small matrix elements count, too
FAMILY(magnitudes) {
  cx.bound(mc::str("the same models, every pair of operators p, q of a pool: one merge with p + s*q and with s*(p + q), then one with s*p, s from ", mc::vec_str(magnitudes()), "; matrix elements compared relatively"));
  for(auto const& m : models())
    for(std::size_t h = 0; h < m.hams.size(); h += 2)
      for(std::size_t i = 0; i < m.ops.size(); ++i)
        for(std::size_t j = 0; j < m.ops.size(); ++j)
          for(std::size_t c = 0; c < magnitudes().size(); ++c)
            for(int both = 0; both < 2; ++both) {
              if(i == j && !both) continue;
              if(!cx.thorough() && (i + j + c) % 3) continue;
              cx.test([&] { return mc::str(set_str(m.set), " H = ", sum_str(m.hams[h]), ": ", sum_str(m.ops[i]), both ? " and " : " + ", magnitudes()[c], "*(", sum_str(m.ops[j]), ")"); },
                      [&] {
                        cd s = magnitudes()[c];
                        Sum op = both ? s * (m.ops[i] + m.ops[j]) : m.ops[i] + s * m.ops[j];
                        if(j % 2) run_hs<double>(cx, m.set, both ? s * m.hams[h] : m.hams[h], {op, s * m.ops[i]}, 0, tiny);
                        else
                          run_hs<cd>(cx, m.set, m.hams[h], {op, s * m.ops[i]}, 0, tiny);
                      });
            }
}

// The reference closure over many subspaces
static void closure_many(Labels& lab, Mats const& ops) {
  std::map<uint64_t, uint64_t> parent;
  for(auto const& p : lab)
    parent[p.first] = p.second;
  std::function<uint64_t(uint64_t)> root = [&](uint64_t x) {
    while(parent[x] != x)
      x = parent[x];
    return x;
  };
  for(bool again = true; again;) {
    again = false;
    for(auto const& m : ops) {
      std::map<uint64_t, uint64_t> dest;
      for(auto const& e : m) {
        uint64_t to = root(e.first.first);
        auto it = dest.emplace(root(e.first.second), to).first;
        uint64_t a = root(it->second);
        if(a == to) continue;
        parent[std::max(a, to)] = std::min(a, to);
        again = true;
      }
    }
  }
  for(auto& p : lab)
    p.second = root(p.first);
}
FAMILY(many_subspaces) {
  cx.bound(mc::str("partitions into hundreds and thousands of subspaces (up to ", cx.pick(2048, 4096), " states, see C26) merged with every generator, with products and sums of two, and with two of them in turn"));
  for(auto const& m : many_subspaces(cx.thorough())) {
    auto pr = probes(m.set);
    for(std::size_t i = 0; i < pr.size(); ++i)
      cx.test([&] { return mc::str(m.name, " merged with ", sum_str(pr[i]), " and the next"); },
              [&] {
                Layout l = layout(m.set);
                HS hs = build(m.set);
                auto st = states(l);
                Labels lab = blocks(matrix(l, m.h, st), st);
                space_partition<HS> sp(oper<double>(m.h, hs), hs);
                Mats mats;
                for(std::size_t j : {i, (i + 1) % pr.size()}) {
                  Mat a = matrix(l, pr[j], st), b = matrix(l, dag(pr[j]), st);
                  auto r = sp.merge_subspaces(oper<double>(dag(pr[j]), hs), oper<double>(pr[j], hs));
                  std::string what = "merged with " + sum_str(pr[j]);
                  check_elements(r.first, b, what + " (first)");
                  check_elements(r.second, a, what + " (second)");
                  mats.push_back(b);
                  mats.push_back(a);
                  closure_many(lab, mats);
                  check_partition(sp, lab, what);
                  one_to_one(sp.find_connections(oper<double>(pr[j], hs)), what);
                  one_to_one(sp.find_connections(oper<double>(dag(pr[j]), hs)), what + " (conjugate)");
                  cx.trans(st.size() * 2);
                  cx.state(hash(lab));
                }
                cx.validated();
              });
  }
}
