// C17: operators represent the algebra
#include "refop.hpp"
using namespace refop;
using Ex = expression<cd, int>;
using SV = sparse_state_vector<cd>;

static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }

static std::vector<Op> gens(std::vector<ES> const& set) {
  std::vector<Op> r;
  for(auto const& e : set) {
    if(e.kind == 2)
      for(int c = 0; c < 3; ++c)
        r.push_back(S(c, e.par, e.idx));
    else
      for(int d = 1; d >= 0; --d)
        r.push_back({e.kind, d, 2, e.idx});
  }
  return r;
}
static SV act_on(loperator<cd, fermion, boson, spin> const& op, SV const& in) { return op(in); }
static SV unit(HS const& hs, uint64_t s) {
  SV v(get_vec_size(hs));
  v[s] = 1;
  return v;
}
static void same_sv(SV const& a, SV const& b, std::string const& what) {
  auto go = [&](SV const& x, SV const& y) {
    foreach(x, [&](sv_index_type n, cd const& v) { MC_CHECK(mc::close(v, get_element(y, n)), what, ": amplitude ", n, ": ", get_element(a, n), " vs ", get_element(b, n)); });
  };
  go(a, b);
  go(b, a);
}
static uint64_t hsv(SV const& a) {
  uint64_t h = 0;
  foreach(a, [&](sv_index_type n, cd const& v) { h += mc::hcomb(n, mc::hcomb(mc::hdbl(std::round(v.real() * 1e6)), mc::hdbl(std::round(v.imag() * 1e6)))); });
  return h;
}
// Highest number of quanta the factors can add to a bosonic mode
static int climbs(std::vector<Word> const& ws, int idx) {
  int m = 0;
  for(auto const& w : ws) {
    int c = 0;
    for(auto const& o : w)
      if(o.kind == 1 && o.idx == idx && o.comp) ++c;
    m = std::max(m, c);
  }
  return m;
}
// An expression together with the words it consists of
struct E {
  Ex e;
  std::vector<Word> words;
  std::string name;
};
static std::vector<uint64_t> safe_states(Layout const& l, E const& a, E const& b) {
  std::vector<uint64_t> r;
  for(uint64_t s : states(l)) {
    Occ n = decode(l, s);
    bool ok = true;
    for(std::size_t i = 0; i < l.es.size(); ++i)
      if(l.es[i].kind == 1 && n[i] + climbs(a.words, l.es[i].idx) + climbs(b.words, l.es[i].idx) >= l.es[i].par) ok = false;
    if(ok) r.push_back(s);
  }
  return r;
}
static void check_pair(mc::Ctx& cx, std::vector<ES> const& set, E const& a, E const& b) {
  HS hs = build(set);
  Layout l = layout(set);
  auto A = make_loperator(a.e, hs), Bo = make_loperator(b.e, hs);
  auto AB = make_loperator(a.e * b.e, hs), Su = make_loperator(a.e + b.e, hs), Di = make_loperator(a.e - cd(0.5, 2) * b.e, hs);
  uint64_t h = 0;
  for(uint64_t s : states(l)) {
    SV v = unit(hs, s);
    SV av = act_on(A, v), bv = act_on(Bo, v), sum(get_vec_size(hs)), dif(get_vec_size(hs));
    foreach(av, [&](sv_index_type n, cd const& x) {
      update_add_element(sum, n, x);
      update_add_element(dif, n, x);
    });
    foreach(bv, [&](sv_index_type n, cd const& x) {
      update_add_element(sum, n, x);
      update_add_element(dif, n, -cd(0.5, 2) * x);
    });
    std::string st = mc::str(" on |", s, ">");
    same_sv(act_on(Su, v), sum, "op(A+B) vs op(A)+op(B)" + st);
    same_sv(act_on(Di, v), dif, "op(A-sB) vs op(A)-s*op(B)" + st);
    cx.trans(5);
  }
  for(uint64_t s : safe_states(l, a, b)) {
    SV v = unit(hs, s);
    SV r = act_on(AB, v);
    same_sv(r, act_on(A, act_on(Bo, v)), mc::str("op(A*B) vs op(A)op(B) on |", s, ">"));
    h = mc::hcomb(h, hsv(r));
    cx.trans(3);
  }
  cx.state(mc::hcomb(refhs::hash(l), h));
  cx.validated();
}
static void check_adjoint(mc::Ctx& cx, std::vector<ES> const& set, E const& a) {
  HS hs = build(set);
  Layout l = layout(set);
  auto A = make_loperator(a.e, hs), Ad = make_loperator(conj(a.e), hs);
  auto st = states(l);
  std::vector<SV> col, cold;
  for(uint64_t s : st) {
    col.push_back(act_on(A, unit(hs, s)));
    cold.push_back(act_on(Ad, unit(hs, s)));
    cx.trans(2);
  }
  uint64_t h = 9;
  for(std::size_t i = 0; i < st.size(); ++i) {
    for(std::size_t j = 0; j < st.size(); ++j)
      MC_CHECK(mc::close(get_element(col[i], st[j]), std::conj(get_element(cold[j], st[i]))), "<", st[j], "|A|", st[i], "> = ", get_element(col[i], st[j]), " but <", st[i], "|conj(A)|", st[j], "> = ", get_element(cold[j], st[i]));
    foreach(col[i], [&](sv_index_type n, cd const&) { MC_CHECK(std::binary_search(st.begin(), st.end(), n), "non-physical state ", n, " reached"); });
    h = mc::hcomb(h, hsv(col[i]));
  }
  cx.state(mc::hcomb(refhs::hash(l), h));
  cx.validated();
}
static std::vector<E> word_pool(std::vector<Op> const& g, int lo, int hi) {
  std::vector<E> r;
  mc::words(int(g.size()), lo, hi, [&](std::vector<int> const& v) {
    Word w;
    for(int i : v)
      w.push_back(g[i]);
    r.push_back({to_expr<cd>(w), {w}, word_str(w)});
  });
  return r;
}
static void all_pairs(mc::Ctx& cx, std::vector<ES> const& set, int la, int lb) {
  cx.bound(mc::str(set_str(set), ": all pairs of words of lengths up to ", la, " and ", lb));
  auto g = gens(set);
  auto pa = word_pool(g, 0, la), pb = word_pool(g, 0, lb);
  for(auto const& a : pa)
    for(auto const& b : pb)
      cx.test([&] { return set_str(set) + "A = " + a.name + ", B = " + b.name; }, [&] { check_pair(cx, set, a, b); });
}
FAMILY(fermion_pairs) { all_pairs(cx, {{0, 2, 0}, {0, 2, 1}, {0, 2, 2}}, cx.pick(2, 3), cx.pick(2, 3)); }
FAMILY(fermion_long) { all_pairs(cx, {{0, 2, 0}, {0, 2, 1}}, 3, cx.pick(3, 4)); }
FAMILY(boson_pairs) {
  all_pairs(cx, {{1, 9, 0}}, cx.pick(4, 5), cx.pick(4, 5));
  all_pairs(cx, {{1, 5, 0}, {1, 6, 1}}, 2, cx.pick(2, 3));
}
FAMILY(spin_pairs) {
  for(uint64_t m = 2; m <= 6; ++m)
    all_pairs(cx, {{2, m, 0}}, cx.pick(3, 4), cx.pick(3, 4));
  for(uint64_t m = 2; m <= 4; ++m)
    for(uint64_t k = m; k <= 4; ++k)
      all_pairs(cx, {{2, m, 0}, {2, k, 1}}, 2, cx.pick(1, 2));
}
FAMILY(mixed_pairs) {
  std::vector<std::vector<ES>> sets{{{0, 2, 0}, {1, 4, 0}, {2, 2, 0}}, {{0, 2, 0}, {0, 2, 1}, {2, 3, 0}}, {{1, 3, 0}, {2, 2, 0}, {2, 4, 1}}, {{0, 2, 0}, {0, 2, 1}, {1, 5, 0}, {2, 3, 1}}};
  for(std::size_t i = 0; i < sets.size(); ++i)
    all_pairs(cx, sets[i], 2, i < 3 || cx.thorough() ? 2 : 1);
}
// sums with complex coefficients
static std::vector<E> sum_pool(std::vector<ES> const& set) {
  auto g = gens(set);
  auto w1 = word_pool(g, 0, 1);
  std::vector<E> r;
  for(std::size_t i = 0; i < w1.size(); ++i)
    for(std::size_t j = 0; j < w1.size(); ++j) {
      if(i == j) continue;
      E e;
      e.e = cd(1, -2) * w1[i].e + cd(0, 1.5) * w1[j].e * w1[i].e;
      Word w = w1[j].words[0];
      w.insert(w.end(), w1[i].words[0].begin(), w1[i].words[0].end());
      e.words = {w1[i].words[0], w};
      e.name = "(1,-2)*" + w1[i].name + "+ (0,1.5)*" + word_str(w);
      r.push_back(e);
    }
  return r;
}
FAMILY(sum_pairs) {
  std::vector<std::vector<ES>> sets{{{0, 2, 0}, {0, 2, 1}}, {{0, 2, 0}, {1, 7, 0}}, {{1, 7, 0}, {2, 2, 0}}, {{0, 2, 0}, {2, 3, 0}}, {{2, 2, 0}, {2, 4, 0}}};
  cx.bound("all pairs of two-term sums (1,-2)*u + (0,1.5)*v*u over generators u, v of 5 two-factor spaces");
  for(auto const& set : sets) {
    auto p = sum_pool(set);
    for(std::size_t i = 0; i < p.size(); ++i)
      for(std::size_t j = 0; j < p.size(); ++j) {
        if(!cx.thorough() && (i + j) % 2) continue;
        auto const &a = p[i], &b = p[j];
        cx.test([&] { return set_str(set) + "A = " + a.name + ", B = " + b.name; }, [&] { check_pair(cx, set, a, b); });
      }
  }
}
FAMILY(adjoints) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("conjugate transpose of all words up to length ", L, " and all two-term sums over 6 spaces"));
  std::vector<std::vector<ES>> sets{{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}}, {{1, 4, 0}, {1, 3, 1}}, {{2, 2, 0}, {2, 3, 0}}, {{2, 6, 0}}, {{0, 2, 0}, {1, 3, 0}, {2, 4, 0}}, {{0, 2, 0}, {0, 2, 1}, {1, 2, 0}, {2, 2, 0}}};
  for(auto const& set : sets) {
    auto g = gens(set);
    auto p = word_pool(g, 0, L), q = sum_pool(set);
    p.insert(p.end(), q.begin(), q.end());
    for(auto const& a : p)
      cx.test([&] { return set_str(set) + a.name; },
              [&] {
                E b = a;
                b.e *= cd(0.5, -3);
                check_adjoint(cx, set, b);
              });
  }
}
// every Hilbert space that contains the needed elementary spaces
FAMILY(larger_spaces) {
  int L = cx.pick(2, 3), N = cx.pick(3, 4);
  cx.bound(mc::str("all words up to length ", L, " over {f1, b3@1, s3@1} in the minimal space and in every superset with up to ", N, " of 8 further spaces placed before, between and after (fermionic spectators empty, others in every state)"));
  std::vector<ES> core{{0, 2, 1}, {1, 3, 1}, {2, 3, 1}};
  std::vector<ES> extra{{0, 2, 0}, {0, 2, 2}, {1, 2, 0}, {1, 3, 2}, {2, 2, 5}, {2, 3, 0}, {2, 3, 2}, {2, 4, 1}};
  auto g = gens(core);
  auto pool = word_pool(g, 0, L);
  subsets(extra, N, [&](std::vector<ES> const& ex) {
    for(auto const& a : pool)
      cx.test([&] { return set_str(ex) + a.name; },
              [&] {
                std::vector<ES> need;
                for(auto const& e : core)
                  for(auto const& o : a.words[0])
                    if(o.kind == e.kind) {
                      need.push_back(e);
                      break;
                    }
                // minimal space straight from the expression where it has all factors
                HS h0 = a.e.size() == 1 && !need.empty() ? make_hilbert_space(a.e, boson_es_constructor(3)) : build(need);
                Layout l0 = layout(need);
                std::vector<ES> big = need;
                big.insert(big.end(), ex.begin(), ex.end());
                HS h1 = build(big);
                Layout l1 = layout(big);
                if(int(h0.size()) != int(need.size())) h0 = build(need);
                auto o0 = make_loperator(a.e, h0), o1 = make_loperator(a.e, h1);
                std::vector<int> pos; // position of each needed space in the big one
                for(auto const& e : l0.es)
                  for(std::size_t i = 0; i < l1.es.size(); ++i)
                    if(same(e, l1.es[i])) pos.push_back(int(i));
                uint64_t hh = 0;
                for(uint64_t s : states(l1)) {
                  Occ n = decode(l1, s), m;
                  for(int p : pos)
                    m.push_back(n[p]);
                  bool skip = false;
                  for(std::size_t i = 0; i < n.size(); ++i)
                    if(l1.es[i].kind == 0 && n[i] && std::find(pos.begin(), pos.end(), int(i)) == pos.end()) skip = true;
                  if(skip) continue;
                  SV small = act_on(o0, unit(h0, encode(l0, m))), expect(get_vec_size(h1));
                  foreach(small, [&](sv_index_type t, cd const& v) {
                    Occ r = decode(l0, t), nn = n;
                    for(std::size_t k = 0; k < pos.size(); ++k)
                      nn[pos[k]] = r[k];
                    expect[encode(l1, nn)] = v;
                  });
                  SV got = act_on(o1, unit(h1, s));
                  same_sv(got, expect, mc::str("larger space, |", s, ">"));
                  hh = mc::hcomb(hh, hsv(got));
                  cx.trans(2);
                }
                cx.state(mc::hcomb(refhs::hash(l1), hh));
                cx.validated();
              });
  });
}
// --- linearity holds for scalars of any magnitude ------------------------------------
static void near_sv(SV const& got, SV const& ex, double tol, std::string const& what) {
  auto go = [&](SV const& x, SV const& y) {
    foreach(x, [&](sv_index_type n, cd const&) { MC_CHECK(std::abs(get_element(x, n) - get_element(y, n)) <= tol + 1e-11 * std::abs(get_element(ex, n)), what, ": amplitude ", n, ": ", get_element(got, n), " vs ", get_element(ex, n)); });
  };
  go(got, ex);
  go(ex, got);
}
static void add_to(SV& to, SV const& from, cd f) {
  foreach(from, [&](sv_index_type n, cd const& x) { to[n] += f * x; });
}
FAMILY(magnitudes) {
  cx.bound(mc::str("op(s*A), op(A + s*B), op(s*A)op(B/s) and op(conj(s*A)) for all words A, B up to length 2 over 5 spaces, s from ", mc::vec_str(magnitudes()), " times 1 or i, on basis states of amplitude 1 and 1/s"));
  std::vector<std::vector<ES>> sets{{{0, 2, 0}, {0, 2, 1}}, {{1, 6, 0}, {0, 2, 0}}, {{2, 2, 0}, {2, 3, 0}}, {{2, 6, 0}}, {{0, 2, 0}, {1, 4, 0}, {2, 2, 0}}};
  for(auto const& set : sets) {
    auto p = word_pool(gens(set), 0, 2);
    for(std::size_t i = 0; i < p.size(); ++i)
      for(std::size_t j = 0; j < p.size(); ++j)
        for(std::size_t c = 0; c < 2 * magnitudes().size(); ++c) {
          if((i + 2 * j + c) % (cx.thorough() ? 1 : p.size() > 25 ? 9 : 3)) continue;
          auto const &a = p[i], &b = p[j];
          double m = magnitudes()[c / 2];
          cd s = c % 2 ? cd(0, m) : cd(m);
          cx.test([&] { return mc::str(set_str(set), "A = ", a.name, ", B = ", b.name, ", s = ", s); },
                  [&] {
                    auto run = [&](auto s) {
                    using Sc = decltype(s);
                    auto ea = to_expr<Sc>(a.words[0]), eb = to_expr<Sc>(b.words[0]);
                    HS hs = build(set);
                    Layout l = layout(set);
                    auto A = make_loperator(ea, hs), Bo = make_loperator(eb, hs), sA = make_loperator(s * ea, hs), ApsB = make_loperator(ea + s * eb, hs), Bs = make_loperator(eb * (Sc(1.0) / s), hs), cA = make_loperator(conj(ea), hs), csA = make_loperator(conj(s * ea), hs);
                    uint64_t h = c;
                    for(uint64_t n : states(l)) {
                      SV v = unit(hs, n), w(get_vec_size(hs)), e1(get_vec_size(hs)), e2(get_vec_size(hs)), e3(get_vec_size(hs)), e4(get_vec_size(hs));
                      w[n] = 1 / m;
                      add_to(e1, A(v), s);
                      near_sv(sA(v), e1, tiny + 1e-13 * m, mc::str("op(s*A) vs s*op(A) on |", n, ">"));
                      add_to(e2, A(v), s / Sc(m));
                      near_sv(sA(w), e2, 1e-12, mc::str("op(s*A) vs s*op(A) on 1/|s| times |", n, ">"));
                      add_to(e3, A(v), 1);
                      add_to(e3, Bo(v), s);
                      near_sv(ApsB(v), e3, tiny + 1e-13 * (m > 1 ? m : 0), mc::str("op(A + s*B) vs op(A) + s*op(B) on |", n, ">"));
                      add_to(e4, cA(v), std::conj(cd(s)));
                      near_sv(csA(v), e4, tiny + 1e-13 * m, mc::str("op(conj(s*A)) vs conj(s)*op(conj(A)) on |", n, ">"));
                      near_sv(sA(Bs(v)), A(Bo(v)), 1e-11, mc::str("op(s*A)op(B/s) vs op(A)op(B) on |", n, ">"));
                      cx.trans(9);
                      h = mc::hcomb(h, hsv(e1));
                    }
                    cx.state(mc::hcomb(refhs::hash(l), h));
                    cx.validated();
                    };
                    if(c % 2) run(s);
                    else
                      run(m);
                  });
        }
  }
}
// --- modes and spins with very many levels ---------------------------------------------
FAMILY(huge_dimensions) {
  cx.bound(mc::str("one mode or spin with 2^15..2^40 levels next to a fermion and a spin: op(A*B), op(A+B), op(A-sB) and the adjoint for all words A up to length 2 and B up to length ", cx.pick(1, 2), " over its generators and the fermion's, on states at both ends, in the middle and next to powers of two"));
  for(ES big : {ES{1, 40000, 1}, ES{1, 65537, 1}, ES{1, (uint64_t(1) << 20) - 3, 1}, ES{1, (uint64_t(1) << 32) + 5, 1}, ES{1, uint64_t(1) << 40, 1}, ES{2, 300, 1}, ES{2, 32769, 1}, ES{2, 65536, 1}, ES{2, 92683, 1}, ES{2, 1048577, 1}}) {
    std::vector<ES> set{{0, 2, 0}, big, {2, 3, 0}};
    std::vector<ES> sub{big, {0, 2, 0}};
    auto pa = word_pool(gens(sub), 0, 2), pb = word_pool(gens(sub), 0, cx.pick(1, 2));
    for(auto const& a : pa)
      for(auto const& b : pb)
        cx.test([&] { return mc::str(set_str(set), "A = ", a.name, ", B = ", b.name); },
                [&] {
                  HS hs = build(set);
                  Layout l = layout(set);
                  auto A = make_loperator(a.e, hs), Bo = make_loperator(b.e, hs), AB = make_loperator(a.e * b.e, hs), Su = make_loperator(a.e + b.e, hs), Di = make_loperator(a.e - cd(0.5, 2) * b.e, hs), Ad = make_loperator(conj(a.e), hs);
                  // the size of the numbers that add up
                  double scale = 1;
                  for(std::size_t k = 0; k < a.words[0].size() + b.words[0].size(); ++k)
                    scale *= big.kind == 1 ? std::sqrt(double(big.par)) : double(big.par);
                  int at = slot(l, big.kind == 1 ? B(0, 1) : S(0, big.par, 1)), f = slot(l, F(0, 0)), sp = slot(l, S(0, 3, 0));
                  uint64_t m = big.par, top = big.kind == 1 ? m - 5 : m - 1; // below the truncation
                  std::set<uint64_t> ns;
                  for(uint64_t c : {uint64_t(0), (m - 1) / 2, top - 2})
                    for(uint64_t n = c < 2 ? 0 : c - 2; n <= top && n <= c + 2; ++n)
                      ns.insert(n);
                  for(uint64_t n = 128; n < m; n *= 2)
                    for(uint64_t q : {n - 2, n - 1, n, n + 1})
                      if(q <= top) ns.insert(q);
                  uint64_t h = 5;
                  for(uint64_t n : ns)
                    for(uint64_t r = 0; r < 2; ++r) {
                      Occ o(3, 0);
                      o[at] = n;
                      o[f] = r;
                      o[sp] = 2 * r;
                      uint64_t s = encode(l, o);
                      SV v = unit(hs, s), e1(get_vec_size(hs)), e2(get_vec_size(hs));
                      SV av = A(v), bv = Bo(v);
                      add_to(e1, av, 1);
                      add_to(e1, bv, 1);
                      add_to(e2, av, 1);
                      add_to(e2, bv, -cd(0.5, 2));
                      double tol = 1e-13 * scale;
                      near_sv(AB(v), A(bv), tol, mc::str("op(A*B) vs op(A)op(B) on |", n, " ", r, ">"));
                      near_sv(Su(v), e1, tol, mc::str("op(A+B) on |", n, " ", r, ">"));
                      near_sv(Di(v), e2, tol, mc::str("op(A-sB) on |", n, " ", r, ">"));
                      foreach(av, [&](sv_index_type out, cd const& x) {
                        MC_CHECK(out < hs.vec_size(), "non-physical state ", out);
                        SV back = Ad(unit(hs, out));
                        MC_CHECK(std::abs(get_element(back, s) - std::conj(x)) <= tol + 1e-11 * std::abs(x), "adjoint: <", s, "|conj(A)|", out, "> = ", get_element(back, s), " but <", out, "|A|", s, "> = ", x);
                      });
                      // the occupation itself, through the diagonal generators
                      if(n && big.kind == 1) {
                        using namespace static_indices;
                        auto num = make_loperator(expression<cd, int>(a_dag<int>(1) * static_indices::a<int>(1)), hs);
                        near_sv(num(v), [&] { SV x(get_vec_size(hs)); x[s] = double(n); return x; }(), 1e-12, mc::str("number operator on |", n, ">"));
                      }
                      cx.trans(7);
                      h = mc::hcomb(h, hsv(e1));
                    }
                  cx.state(mc::hcomb(refhs::hash(l), h));
                  cx.validated();
                });
  }
}
