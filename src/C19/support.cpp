// C19: operators accept exactly what their algebras and space support
#include "refop.hpp"
using namespace refop;

// --- two user-defined algebras with IDs 0 and 7, written after the documentation ------------
// algebra 0: commuting shifts X_i on 3-dimensional spaces, X|n> = 2|n+1 mod 3>
// algebra 7: commuting lowering operators Q_i on 2-dimensional spaces, Q|1> = -3|0>, Q|0> = 0
template <int ID> class UGen : public generator<int> {
  using base = generator<int>;

public:
  explicit UGen(int i) : base(i) {}
  int algebra_id() const override { return ID; }
  var_number swap_with(base const&, linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
template <int ID> class USpace : public elementary_space<int> {
public:
  explicit USpace(int i) : elementary_space<int>(i) {}
  std::unique_ptr<elementary_space<int>> clone() const override { return make_unique<USpace>(*this); }
  int algebra_id() const override { return ID; }
  int n_bits() const override { return ID == 0 ? 2 : 1; }
  sv_index_type dim() const override { return ID == 0 ? 3 : 2; }
};
template <int ID> class UAction {
protected:
  std::vector<int> shifts_;
  UAction(monomial<int>::range_type const& r, hilbert_space<int> const& hs) {
    for(auto it = r.first; it != r.second; ++it) {
      // every generator in the range belongs to this algebra, as documented
      USpace<ID> es(std::get<0>(it->indices()));
      if(!hs.has(es)) throw unknown_generator<int>(*it);
      shifts_.push_back(hs.bit_range(es).first);
    }
  }
};
namespace libcommute {
template <> class monomial_action<0> : private UAction<0> {
public:
  monomial_action(monomial<int>::range_type const& r, hilbert_space<int> const& hs) : UAction<0>(r, hs) {}
  template <typename S> bool act(sv_index_type& index, S& coeff) const {
    for(std::size_t k = shifts_.size(); k-- > 0;) {
      sv_index_type n = (index >> shifts_[k]) & 3;
      index &= ~(sv_index_type(3) << shifts_[k]);
      index |= ((n + 1) % 3) << shifts_[k];
      coeff *= scalar_traits<S>::make_const(2);
    }
    return true;
  }
};
template <> class monomial_action<7> : private UAction<7> {
public:
  monomial_action(monomial<int>::range_type const& r, hilbert_space<int> const& hs) : UAction<7>(r, hs) {}
  template <typename S> bool act(sv_index_type& index, S& coeff) const {
    for(std::size_t k = shifts_.size(); k-- > 0;) {
      if(!((index >> shifts_[k]) & 1)) return false;
      index ^= sv_index_type(1) << shifts_[k];
      coeff *= scalar_traits<S>::make_const(-3);
    }
    return true;
  }
};
} // namespace libcommute

// --- reference --------------------------------------------------------------------------
static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }
static Op U(int id, int i) { return {10 + id, 0, id == 0 ? 3u : 2u, i}; }
static int id_of(Op const& o) { return o.kind >= 10 ? o.kind - 10 : o.kind == 0 ? fermion : o.kind == 1 ? boson : spin; }
static int id_bit(int id) { return id == fermion ? 1 : id == boson ? 2 : id == spin ? 4 : id == 0 ? 8 : 16; }
static std::string ustr(Op const& o) { return o.kind >= 10 ? mc::str("U", o.kind - 10, "(", o.idx, ")") : op_str(o); }
static std::string wstr(Word const& w) {
  std::string s;
  for(auto const& o : w)
    s += ustr(o) + " ";
  return s.empty() ? "1" : s;
}
static HS ubuild(std::vector<ES> const& v) {
  HS hs;
  for(auto const& e : v) {
    if(e.kind == 10) hs.add(USpace<0>(e.idx));
    else if(e.kind == 17)
      hs.add(USpace<7>(e.idx));
    else
      hs.add(*make(e));
  }
  return hs;
}
static double uapply(Layout const& l, Op const& o, Occ& n) {
  if(o.kind < 10) return refop::apply(l, o, n);
  int i = -1;
  for(std::size_t k = 0; k < l.es.size(); ++k)
    if(l.es[k].kind == o.kind && l.es[k].idx == o.idx) i = int(k);
  if(o.kind == 10) {
    n[i] = (n[i] + 1) % 3;
    return 2;
  }
  if(n[i] == 0) return 0;
  n[i] = 0;
  return -3;
}
static std::shared_ptr<const generator<int>> ugen(Op const& o) {
  using namespace static_indices;
  switch(o.kind) {
  case 0: return make_fermion(bool(o.comp), o.idx);
  case 1: return make_boson(bool(o.comp), o.idx);
  case 2: return make_spin((double(o.mult) - 1) / 2, o.comp == 0 ? plus : o.comp == 1 ? minus : z, o.idx);
  case 10: return std::make_shared<UGen<0>>(o.idx);
  default: return std::make_shared<UGen<7>>(o.idx);
  }
}
static bool in_space(Op const& o, std::vector<ES> const& set) {
  for(auto const& e : set)
    if(e.kind == o.kind && e.idx == o.idx && (o.kind != 2 || o.mult == e.par)) return true;
  return false;
}
static Col reference(Layout const& l, std::vector<std::pair<double, Word>> const& terms, uint64_t s) {
  Col c;
  for(auto const& t : terms) {
    Occ n = decode(l, s);
    double a = t.first;
    for(std::size_t k = t.second.size(); k-- > 0 && a != 0;)
      a *= uapply(l, t.second[k], n);
    if(a != 0) c[encode(l, n)] += a;
  }
  return c;
}
// Visits loperator<double, ...> for every subset of {fermion, boson, spin, 0, 7}
template <int... I> struct ids {};
template <typename Fn, int... I> static void leaf(ids<I...>, int mask, Fn&& f) {
  f(static_cast<loperator<double, I...>*>(nullptr), static_cast<parametric_loperator<double, I...>*>(nullptr), mask);
}
template <int K> struct id_at;
template <> struct id_at<0> { static constexpr int value = fermion; };
template <> struct id_at<1> { static constexpr int value = boson; };
template <> struct id_at<2> { static constexpr int value = spin; };
template <> struct id_at<3> { static constexpr int value = 0; };
template <> struct id_at<4> { static constexpr int value = 7; };
template <int K> struct walk {
  template <typename Fn, int... I> static void go(ids<I...>, int mask, Fn& f) {
    walk<K + 1>::go(ids<I...>(), mask, f);
    walk<K + 1>::go(ids<I..., id_at<K>::value>(), mask | (1 << K), f);
  }
};
template <> struct walk<5> {
  template <typename Fn, int... I> static void go(ids<I...> i, int mask, Fn& f) { leaf(i, mask, f); }
};
template <typename Fn> static void all_lists(Fn&& f) { walk<0>::go(ids<>(), 0, f); }

static expression<double, int> expr_of(std::vector<std::pair<double, Word>> const& terms, std::vector<std::pair<double, Word>>& canonical) {
  expression<double, int> e;
  for(auto const& t : terms) {
    expression<double, int> p(t.first);
    for(auto const& o : t.second)
      p = p * expression<double, int>(1.0, monomial<int>(std::vector<std::shared_ptr<const generator<int>>>{ugen(o)}));
    e += p;
  }
  // the polynomial that is actually stored
  canonical.clear();
  for(auto const& m : e) {
    Word w;
    for(auto const& g : m.monomial) {
      if(g.algebra_id() >= 0) w.push_back(U(g.algebra_id(), std::get<0>(g.indices())));
      else
        w.push_back(to_op(g));
    }
    canonical.emplace_back(m.coeff, w);
  }
  return e;
}
static void check_support(mc::Ctx& cx, std::vector<ES> const& set, std::vector<std::pair<double, Word>> const& terms) {
  std::vector<std::pair<double, Word>> can;
  auto e = expr_of(terms, can);
  HS hs = ubuild(set);
  Layout l = layout(set);
  auto st = states(l);
  std::vector<Col> ref;
  bool spaces_ok = true;
  int need = 0;
  for(auto const& t : can)
    for(auto const& o : t.second) {
      spaces_ok = spaces_ok && in_space(o, set);
      need |= id_bit(id_of(o));
    }
  if(spaces_ok)
    for(uint64_t s : st)
      ref.push_back(reference(l, can, s));
  all_lists([&](auto* lop, auto* plop, int mask) {
    using LOp = std::remove_pointer_t<decltype(lop)>;
    (void)plop;
    bool ok = spaces_ok && (need & ~mask) == 0;
    std::string w = mc::str("algebra list mask ", mask);
    cx.trans();
    try {
      LOp op(e, hs);
      MC_CHECK(ok, w, ": the operator was accepted although ", (need & ~mask) ? "an algebra is not supported" : "an elementary space is missing");
      for(std::size_t i = 0; i < st.size(); ++i) {
        std::vector<double> src(get_vec_size(hs), 0), dst(get_vec_size(hs), 3);
        src[st[i]] = 1;
        op(src, dst);
        check_col(l, dst, ref[i], st[i], w);
      }
    } catch(unknown_generator<int> const& x) {
      MC_CHECK(!ok, w, ": refused a supported expression: ", x.what());
      MC_CHECK(x.generator_ptr != nullptr, w, ": no generator reported");
      auto const& g = *x.generator_ptr;
      Op o = g.algebra_id() >= 0 ? U(g.algebra_id(), std::get<0>(g.indices())) : to_op(g);
      MC_CHECK(!in_space(o, set) || !(id_bit(id_of(o)) & mask), w, ": the exception blames the supported generator ", ustr(o));
    }
    cx.validated();
    cx.state(mc::hcomb(mc::hcomb(refhs::hash(l), mask), mc::hcomb(need, ok)));
  });
}
static std::vector<Op> all_gens() { return {F(1, 0), F(0, 1), B(1, 0), B(0, 1), S(0, 2, 0), S(2, 3, 0), S(1, 3, 1), U(0, 0), U(0, 1), U(7, 0)}; }
static std::vector<ES> pool() { return {{0, 2, 0}, {0, 2, 1}, {1, 3, 0}, {1, 2, 1}, {2, 2, 0}, {2, 3, 0}, {2, 3, 1}, {10, 3, 0}, {10, 3, 1}, {17, 2, 0}}; }

FAMILY(single_monomials) {
  int L = cx.pick(2, 3);
  cx.bound(mc::str("all words up to length ", L, " over 10 generators of 5 algebras (two user-defined) x the 2^5 algebra lists x spaces: the full one and every one lacking exactly one or (length<=2) two elementary spaces, and those of one algebra only"));
  auto g = all_gens();
  auto P = pool();
  auto run = [&](Word const& w, std::vector<ES> const& set) { cx.test([&] { return set_str(set) + wstr(w); }, [&] { check_support(cx, set, {{1.0, w}}); }); };
  mc::words(int(g.size()), 0, L, [&](std::vector<int> const& v) {
    Word w;
    for(int i : v)
      w.push_back(g[i]);
    std::vector<std::vector<ES>> sets;
    // spaces that hold all, or lack one, of the factors of the word
    std::vector<ES> own;
    for(auto const& e : P)
      for(auto const& o : w)
        if(in_space(o, {e})) {
          own.push_back(e);
          break;
        }
    sets.push_back(own);
    sets.push_back({});
    for(std::size_t i = 0; i < own.size(); ++i) {
      auto s = own;
      s.erase(s.begin() + i);
      sets.push_back(s);
    }
    for(auto const& e : P) {
      bool have = false;
      for(auto const& x : own)
        have = have || (x.kind == e.kind && x.idx == e.idx && x.par == e.par);
      if(have) continue;
      auto s = own;
      s.push_back(e);
      sets.push_back(s);
      if(!own.empty()) {
        s.erase(s.begin());
        sets.push_back(s);
      }
    }
    for(auto const& s : sets)
      run(w, s);
  });
}
FAMILY(two_terms) {
  cx.bound("sums of two monomials of length 1 or 2 (all pairs of 24 words): an unsupported generator in the first or the second term");
  auto g = all_gens();
  std::vector<Word> ws{{}};
  for(auto const& o : g)
    ws.push_back({o});
  for(std::size_t i = 0; i < g.size(); i += 2)
    for(std::size_t j = i + 1; j < g.size(); j += 2)
      ws.push_back({g[i], g[j]});
  auto P = pool();
  for(std::size_t i = 0; i < ws.size(); ++i)
    for(std::size_t j = i + 1; j < ws.size(); ++j)
      for(int lack = -1; lack < int(P.size()); ++lack) {
        if(!cx.thorough() && lack >= 0 && (int(i) + int(j) + lack) % 4) continue;
        std::vector<ES> set;
        for(std::size_t k = 0; k < P.size(); ++k) {
          bool used = false;
          for(auto const& o : ws[i])
            used = used || in_space(o, {P[k]});
          for(auto const& o : ws[j])
            used = used || in_space(o, {P[k]});
          if(used && int(k) != lack) set.push_back(P[k]);
        }
        cx.test([&] { return set_str(set) + wstr(ws[i]) + "+ " + wstr(ws[j]); }, [&] { check_support(cx, set, {{1.0, ws[i]}, {-2.0, ws[j]}}); });
      }
}
// powers beyond the truncation, in front of and behind generators without a space
FAMILY(vanishing_monomials) {
  cx.bound("bosonic powers at and beyond the cutoff and nilpotent words, multiplied by generators that have or lack an elementary space, all orders of 3 factors");
  std::vector<Op> others{B(1, 1), B(0, 1), B(1, 9), B(0, 9), F(1, 9), S(0, 2, 9), S(0, 5, 0), U(0, 9), U(7, 9), F(0, 0)};
  for(int p = 1; p <= 5; ++p)
    for(int d = 0; d < 2; ++d)
      for(auto const& a : others)
        for(auto const& b : others) {
          Word w(p, B(d, 4));
          w.push_back(a);
          w.insert(w.begin(), b);
          cx.test([&] { return wstr(w); },
                  [&] {
                    check_support(cx, {{0, 2, 0}, {1, 3, 4}, {1, 2, 1}, {2, 2, 0}, {10, 3, 0}, {17, 2, 0}}, {{1.0, w}});
                  });
        }
}
// A spin space with another multiplicity, a boson space where a fermion is meant, ...
FAMILY(lookalikes) {
  cx.bound("every generator against every single elementary space with the same or another index, multiplicity and algebra");
  std::vector<Op> g;
  for(int i = 0; i < 2; ++i) {
    for(int d = 0; d < 2; ++d)
      g.push_back(F(d, i)), g.push_back(B(d, i));
    for(uint64_t m = 2; m <= 5; ++m)
      for(int c = 0; c < 3; ++c)
        g.push_back(S(c, m, i));
    g.push_back(U(0, i));
    g.push_back(U(7, i));
  }
  std::vector<ES> es;
  for(int i = 0; i < 3; ++i) {
    es.push_back({0, 2, i});
    for(uint64_t d = 1; d <= 4; ++d)
      es.push_back({1, d, i});
    for(uint64_t m = 2; m <= 5; ++m)
      es.push_back({2, m, i});
    es.push_back({10, 3, i});
    es.push_back({17, 2, i});
  }
  for(auto const& o : g)
    for(auto const& e : es)
      cx.test([&] { return ustr(o) + " in " + es_str(e); }, [&] { check_support(cx, {e}, {{1.0, {o}}}); });
}
// operators with fewer algebras act identically, user algebras mix with the predefined ones
FAMILY(user_algebra_mixtures) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("all words up to length ", L, " over {f+0, f1, b+, b, S+, Sz, X0, X1, Q0} on the full space (288 valid states), for every algebra list"));
  std::vector<Op> g{F(1, 0), F(0, 1), B(1, 0), B(0, 0), S(0, 2, 0), S(2, 2, 0), U(0, 0), U(0, 1), U(7, 0)};
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {1, 2, 0}, {2, 2, 0}, {10, 3, 0}, {17, 2, 0}};
  std::vector<ES> set2 = set;
  set2.push_back({10, 3, 1});
  mc::words(int(g.size()), 1, L, [&](std::vector<int> const& v) {
    if(v.size() == 3 && !cx.thorough() && (v[0] * 81 + v[1] * 9 + v[2]) % 3) return;
    Word w;
    for(int i : v)
      w.push_back(g[i]);
    bool u01 = false;
    for(auto const& o : w)
      u01 = u01 || (o.kind == 10 && o.idx == 1);
    cx.test([&] { return wstr(w); }, [&] { check_support(cx, u01 ? set2 : set, {{1.0, w}, {0.5, {}}}); });
  });
}

// Monomial actions built directly, without an operator around them
template <int K, int... I> struct pwalk {
  template <typename Fn> static void go(int mask, Fn& f) {
    pwalk<K + 1, I...>::go(mask, f);
    pwalk<K + 1, I..., id_at<K>::value>::go(mask | (1 << K), f);
  }
};
template <int... I> struct pwalk<3, I...> {
  template <typename Fn> static void go(int mask, Fn& f) { f(static_cast<monomial_action<I...>*>(nullptr), mask); }
};
FAMILY(direct_actions) {
  int L = cx.pick(3, 4);
  cx.bound(mc::str("monomial_action objects of all 2^3 lists of predefined algebras, built from all canonically ordered words up to length ", L, " over 8 generators, in the full space and every space lacking one of the four elementary spaces; action on every basis state"));
  std::vector<Op> g{F(1, 0), F(0, 1), F(0, 0), B(1, 0), B(0, 0), S(0, 2, 0), S(1, 2, 0), S(2, 3, 1)};
  std::vector<ES> P{{0, 2, 0}, {0, 2, 1}, {1, 3, 0}, {2, 2, 0}, {2, 3, 1}};
  mc::words(int(g.size()), 0, L, [&](std::vector<int> const& v) {
    Word w;
    for(int i : v)
      w.push_back(g[i]);
    // actions are built from monomials as expressions store them
    std::vector<std::pair<double, Word>> can;
    expr_of({{1.0, w}}, can);
    if(can.size() != 1 || can[0].second.size() != w.size()) return;
    for(std::size_t k = 0; k < w.size(); ++k)
      if(ustr(can[0].second[k]) != ustr(w[k])) return;
    for(int lack = -1; lack < int(P.size()); ++lack) {
      std::vector<ES> set;
      for(int k = 0; k < int(P.size()); ++k)
        if(k != lack) set.push_back(P[k]);
      cx.test([&] { return set_str(set) + wstr(w); },
              [&] {
                HS hs = ubuild(set);
                Layout l = layout(set);
                bool spaces_ok = true;
                int need = 0;
                std::vector<std::shared_ptr<const generator<int>>> gs;
                for(auto const& o : w) {
                  spaces_ok = spaces_ok && in_space(o, set);
                  // list bits: fermion 1, boson 2, spin 4 in the order of id_at
                  need |= id_of(o) == id_at<0>::value ? 1 : id_of(o) == id_at<1>::value ? 2 : 4;
                  gs.push_back(ugen(o));
                }
                monomial<int> m(gs);
                auto st = states(l);
                int fun = 0;
                auto f = [&](auto* ma, int mask) {
                  using MA = std::remove_pointer_t<decltype(ma)>;
                  bool ok = spaces_ok && (need & ~mask) == 0;
                  std::string what = mc::str("monomial_action with algebra list mask ", mask);
                  cx.trans();
                  try {
                    MA a(std::make_pair(m.begin(), m.end()), hs);
                    MC_CHECK(ok, what, " was built although a generator is not supported");
                    MA b(a);
                    for(uint64_t s : st) {
                      Col ref = reference(l, {{1.0, w}}, s);
                      sv_index_type idx = s;
                      double c = 1.5;
                      bool nz = b.act(idx, c);
                      Col got;
                      if(nz && c != 0) got[idx] = c / 1.5;
                      MC_CHECK(got.size() == ref.size(), what, " on state ", s, ": zero / non-zero result");
                      for(auto const& x : ref)
                        MC_CHECK(got.count(x.first) && mc::close(got[x.first], x.second), what, " on state ", s);
                    }
                  } catch(unknown_generator<int> const& x) {
                    MC_CHECK(!ok, what, ": refused a supported monomial: ", x.what());
                    auto const& gg = *x.generator_ptr;
                    Op o = to_op(gg);
                    int b = id_of(o) == id_at<0>::value ? 1 : id_of(o) == id_at<1>::value ? 2 : 4;
                    MC_CHECK(!in_space(o, set) || !(b & mask), what, ": the exception blames the supported generator ", ustr(o));
                  }
                  ++fun;
                  cx.state(mc::hcomb(mc::hcomb(refhs::hash(l), mask), mc::hcomb(need, ok)));
                };
                pwalk<0>::go(0, f);
                MC_CHECK(fun == 8, "lists");
                cx.validated();
              });
    }
  });
}
