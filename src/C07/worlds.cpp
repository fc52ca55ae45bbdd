// C07: indices are labels; every index world computes the same thing
#include "refpoly.hpp"
using namespace libcommute;
using namespace ref;
using dynamic_indices::dyn_indices;

template <typename... I> struct World {
  std::string name;
  std::vector<std::tuple<I...>> labels; // increasing
  using gen_ptr = std::shared_ptr<const generator<I...>>;
  using E = expression<double, I...>;

  int site(std::tuple<I...> const& t) const {
    for(std::size_t i = 0; i < labels.size(); ++i)
      if(labels[i] == t) return int(i);
    mc::fail("unknown index in result");
  }
  gen_ptr gen(G const& g) const {
    return std::apply(
        [&](I const&... x) -> gen_ptr {
          if(g.alg == FERMION) return std::make_shared<generator_fermion<I...>>(g.comp == 1, x...);
          if(g.alg == BOSON) return std::make_shared<generator_boson<I...>>(g.comp == 1, x...);
          auto c = g.comp == 0 ? plus : (g.comp == 1 ? minus : z);
          return std::make_shared<generator_spin<I...>>((g.mult - 1) / 2.0, c, x...);
        },
        labels[g.site]);
  }
  E expr(G const& g) const { return E(1.0, monomial<I...>{gen(g)}); }
  E word(std::vector<G> const& w) const {
    E e(1.0);
    for(auto const& g : w)
      e *= expr(g);
    return e;
  }
  std::unique_ptr<elementary_space<I...>> space(G const& g, int bdim) const {
    return std::apply(
        [&](I const&... x) -> std::unique_ptr<elementary_space<I...>> {
          if(g.alg == FERMION) return libcommute::make_unique<elementary_space_fermion<I...>>(x...);
          if(g.alg == BOSON) return libcommute::make_unique<elementary_space_boson<I...>>(sv_index_type(bdim), x...);
          return libcommute::make_unique<elementary_space_spin<I...>>((g.mult - 1) / 2.0, x...);
        },
        labels[g.site]);
  }
};

static auto const W_ref = World<int>{"int", {{0}, {1}, {2}}};

template <typename F> static void each_world(F&& f) {
  using S = std::string;
  using D = dyn_indices;
  f(World<int>{"int neg", {{-5}, {0}, {100}}});
  f(World<int>{"int extreme", {{std::numeric_limits<int>::min()}, {-1}, {std::numeric_limits<int>::max()}}});
  f(World<long>{"long", {{-(1l << 40)}, {0}, {1l << 40}}});
  f(World<S>{"string", {{""}, {"a"}, {"aa"}}});
  f(World<S>{"string numerals", {{"10"}, {"2"}, {"9"}}});
  f(World<S, int>{"(string,int)", {{"dn", 1}, {"up", 0}, {"up", 1}}});
  f(World<int, S>{"(int,string)", {{0, "b"}, {1, "a"}, {1, "b"}}});
  f(World<int, int, int>{"(int,int,int)", {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}}});
  f(World<D>{"dyn int", {{D(1)}, {D(2)}, {D(3)}}});
  f(World<D>{"dyn string", {{D("a")}, {D("b")}, {D("c")}}});
  f(World<D>{"dyn int/string", {{D(7)}, {D("")}, {D("a")}}});
  f(World<D>{"dyn lengths", {{D("z")}, {D(0, 0)}, {D("a", 0)}}});
  f(World<D>{"dyn lengths 0,1,3", {{D()}, {D(5)}, {D(-1, -1, -1)}}});
  f(World<D, int>{"(dyn,int)", {{D("b"), 3}, {D(0, 1), 1}, {D(0, 1), 2}}});
  f(World<unsigned long>{"unsigned long", {{0}, {1ul << 63}, {~0ul}}});
  f(World<S>{"long string", {{S(70, 'x')}, {S(70, 'x') + "a"}, {S(70, 'x') + "b"}}});
  f(World<int, S, int, int, S, int>{"6 indices", {{0, "a", 0, 0, "a", 0}, {0, "a", 0, 0, "a", 1}, {0, "a", 0, 0, "b", 0}}});
  f(World<D>{"dyn 5 ints", {{D(0, 0, 0, 0, 0)}, {D(0, 0, 0, 0, 1)}, {D(0, 0, 0, 1, 0)}}});
  f(World<D>{"dyn 9 mixed", {{D("x", 0, 0, "y", 0, 0, 0, 0, 2)}, {D("x", 0, 0, "y", 0, 0, 0, 0, "2")}, {D("x", 0, 0, "y", 0, 0, 0, 1, 2)}}});
  f(World<D>{"dyn lengths 6,7", {{D(9, 9, 9, 9, 9, 9)}, {D(0, 0, 0, 0, 0, 0, 0)}, {D(0, 0, 0, 0, 0, 0, "a")}}});
}

static void check_word(mc::Ctx& cx, std::vector<G> const& w) {
  RPoly r = rword(w);
  cx.state(hash_r(r));
  each_world([&](auto const& W) {
    auto site = [&](auto const& t) { return W.site(t); };
    auto e = W.word(w);
    check_equal(e, r, W.name + ": " + word_str(w), site);
    check_equal(conj(e), rconj(r), W.name + ": conj " + word_str(w), site);
    cx.trans(w.size() + 1);
    cx.validated(2);
  });
}
static void words_over(mc::Ctx& cx, std::vector<G> const& alpha, int lo, int hi) {
  cx.bound(mc::str("all words of length ", lo, "..", hi, " over ", word_str(alpha), " in 20 index worlds"));
  mc::words(int(alpha.size()), lo, hi, [&](std::vector<int> const& w) {
    std::vector<G> g;
    for(int i : w)
      g.push_back(alpha[i]);
    std::map<std::tuple<int, int, int>, int> cnt;
    for(auto const& x : g)
      if(x.alg == SPIN && x.mult > 2 && x.comp != 2 && ++cnt[std::make_tuple(x.mult, x.site, x.comp)] > x.mult - 1) return;
    cx.test([&] { return word_str(g); }, [&] { check_word(cx, g); });
  });
}
FAMILY(a_words_fermion) { words_over(cx, {F(1, 0), F(0, 0), F(1, 1), F(0, 1), F(1, 2), F(0, 2)}, 1, cx.pick(4, 5)); }
FAMILY(b_words_boson) { words_over(cx, {B(1, 0), B(0, 0), B(1, 1), B(0, 1), B(1, 2), B(0, 2)}, 1, cx.pick(4, 5)); }
FAMILY(c_words_spin) {
  words_over(cx, {Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 2, 0), Sg(0, 2, 2), Sg(1, 2, 1), Sg(2, 2, 1)}, 1, cx.pick(4, 5));
  words_over(cx, {Sg(0, 3, 0), Sg(1, 3, 0), Sg(0, 3, 1), Sg(1, 3, 1), Sg(2, 3, 2), Sg(1, 4, 0)}, 1, cx.pick(4, 5));
}
FAMILY(d_words_mixed) { words_over(cx, {F(1, 0), F(0, 2), B(1, 1), B(0, 1), Sg(0, 2, 0), Sg(1, 2, 0), Sg(1, 3, 2)}, 1, cx.pick(4, 5)); }

// --- Hilbert spaces and operator matrices --------------------------------------------
template <typename... I> static std::string layout(World<I...> const& W, hilbert_space<I...> const& hs, std::vector<G> const& gens, int bdim) {
  std::ostringstream os;
  os << hs.size() << " " << hs.total_n_bits() << " " << hs.dim() << " " << hs.vec_size() << " " << hs.is_sparse();
  for(auto const& g : gens) {
    auto es = W.space(g, bdim);
    os << " | " << hs.has(*es);
    if(hs.has(*es)) os << " " << hs.index(*es) << " " << hs.bit_range(*es).first << "-" << hs.bit_range(*es).second << " " << hs.dim(*es);
  }
  return os.str();
}
template <typename... I> static std::vector<std::vector<double>> matrix(expression<double, I...> const& e, hilbert_space<I...> const& hs) {
  auto op = make_loperator(e, hs);
  std::vector<std::vector<double>> m;
  foreach(hs, [&](sv_index_type i) {
    std::vector<double> v(hs.vec_size(), 0);
    v[i] = 1;
    m.push_back(op(v));
  });
  return m;
}
FAMILY(e_operators) {
  std::vector<std::vector<G>> mons = {{F(1, 0), F(0, 2)}, {F(1, 1), F(0, 1)}, {F(1, 2), F(1, 1), F(0, 1), F(0, 0)}, {B(1, 1)}, {B(1, 0), B(0, 2)}, {B(1, 0), B(0, 0), B(0, 0)}, {Sg(0, 2, 1), Sg(1, 2, 0)}, {Sg(2, 2, 2)}, {Sg(0, 3, 2), Sg(1, 3, 1)}, {F(0, 1), Sg(0, 2, 0), B(0, 1)}, {Sg(2, 4, 1)}};
  int n = int(mons.size());
  cx.bound(mc::str("all sums of 1..3 of ", n, " monomials: Hilbert space layout and full matrix in 20 index worlds"));
  mc::tuples({n, n, n}, [&](std::vector<int> const& q) {
    if(q[0] > q[1] || q[1] > q[2]) return;
    cx.test([&] { return word_str(mons[q[0]]) + " + 2*" + word_str(mons[q[1]]) + " - " + word_str(mons[q[2]]); },
            [&] {
              std::vector<G> gens;
              for(int i : q)
                for(auto const& g : mons[i])
                  gens.push_back(g);
              gens.push_back(F(1, 1));
              gens.push_back(B(1, 0));
              gens.push_back(Sg(0, 2, 1));
              auto mk = [&](auto const& W) { return W.word(mons[q[0]]) + 2.0 * W.word(mons[q[1]]) - W.word(mons[q[2]]) * 0.5; };
              auto e0 = mk(W_ref);
              int bdim = 3;
              auto hs0 = make_hilbert_space(e0, boson_es_constructor(bdim));
              auto l0 = layout(W_ref, hs0, gens, bdim);
              if(hs0.total_n_bits() > 9) bdim = 0;
              std::vector<std::vector<double>> m0;
              if(bdim) m0 = matrix(e0, hs0);
              cx.state(mc::hcomb(mc::hstr(l0), mc::hstr(mc::vec_str(q))));
              each_world([&](auto const& W) {
                auto e = mk(W);
                auto hs = make_hilbert_space(e, boson_es_constructor(3));
                auto l = layout(W, hs, gens, 3);
                MC_CHECK(l == l0, W.name, ": layout ", l, " expected ", l0);
                if(bdim) {
                  auto m = matrix(e, hs);
                  MC_CHECK(m.size() == m0.size(), "number of states");
                  for(std::size_t i = 0; i < m.size(); ++i)
                    for(std::size_t j = 0; j < m[i].size(); ++j)
                      MC_CHECK(mc::close(m[i][j], m0[i][j]), W.name, ": element (", j, ",", i, ") ", m[i][j], " expected ", m0[i][j]);
                  cx.validated(m.size());
                }
                cx.trans(2);
                cx.validated();
              });
            });
  });
}

// Factories of the three index worlds against each other
FAMILY(f_factories) {
  cx.bound("all factories x all pairs of products, static (string,int) vs dynamic vs int indices");
  using SE = expression<double, std::string, int>;
  using DE = expression<double, dyn_indices>;
  using IE = expression<double, int>;
  struct Fac {
    std::string name;
    std::function<IE(int)> i;
    std::function<SE(std::string, int)> s;
    std::function<DE(std::string, int)> d;
  };
  namespace st = static_indices;
  namespace dy = dynamic_indices;
  std::vector<Fac> fs;
#define FAC(NAME)                                                                                                                                                                                                                                                                                                             \
  fs.push_back({#NAME, [](int i) -> IE { return st::NAME(i); }, [](std::string s, int i) -> SE { return st::NAME(s, i); }, [](std::string s, int i) -> DE { return dy::NAME(s, i); }})
  FAC(c);
  FAC(c_dag);
  FAC(n);
  FAC(a);
  FAC(a_dag);
  FAC(S_p);
  FAC(S_m);
  FAC(S_z);
  FAC(S_p<3>);
  FAC(S_m<3>);
  FAC(S_z<3>);
  FAC(S_p<4>);
  FAC(S_z<4>);
  std::vector<std::pair<std::string, int>> lab = {{"dn", 1}, {"up", 0}, {"up", 1}};
  int nf = int(fs.size());
  mc::tuples({nf, 3, nf, 3}, [&](std::vector<int> const& q) {
    cx.test([&] { return mc::str(fs[q[0]].name, "(", q[1], ")*", fs[q[2]].name, "(", q[3], ")"); },
            [&] {
              auto const &f1 = fs[q[0]], &f2 = fs[q[2]];
              auto const &l1 = lab[q[1]], &l2 = lab[q[3]];
              IE ei = f1.i(q[1]) * f2.i(q[3]) + f2.i(q[1]);
              SE es = f1.s(l1.first, l1.second) * f2.s(l2.first, l2.second) + f2.s(l1.first, l1.second);
              DE ed = f1.d(l1.first, l1.second) * f2.d(l2.first, l2.second) + f2.d(l1.first, l1.second);
              World<std::string, int> ws{"", {{"dn", 1}, {"up", 0}, {"up", 1}}};
              World<dyn_indices> wd{"", {{dyn_indices("dn", 1)}, {dyn_indices("up", 0)}, {dyn_indices("up", 1)}}};
              auto p = decode(ei, int_site());
              RPoly r;
              for(auto const& t : p)
                radd(r, t.second, t.first);
              check_equal(es, r, "static (string,int)", [&](auto const& t) { return ws.site(t); });
              check_equal(ed, r, "dynamic", [&](auto const& t) { return wd.site(t); });
              cx.state(hash_r(r));
              cx.trans(3);
              cx.validated(2);
            });
  });
}
