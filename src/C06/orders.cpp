// C06: generators, monomials, spaces and index sequences are strictly totally
// ordered by the documented rules
#include "ref.hpp"
#include <algorithm>
#include <limits>
#include <set>
using namespace libcommute;
using namespace static_indices;

// a < b, a > b, a == b, a != b all agree with the sign of the reference order
template <typename A, typename B> static void check_cmp(A const& a, B const& b, int ref, std::string const& what) {
  MC_CHECK((a < b) == (ref < 0), what);
  MC_CHECK((a > b) == (ref > 0), what);
  MC_CHECK((a == b) == (ref == 0), what);
  MC_CHECK((a != b) == (ref != 0), what);
}
template <typename K> static int sgn(K const& a, K const& b) { return a < b ? -1 : (b < a ? 1 : 0); }

// User-defined algebras: one with default comparisons, one ordering by the
// second index first
template <typename... I> class gen_user : public generator<I...> {
public:
  template <typename... A> explicit gen_user(A&&... a) : generator<I...>(std::forward<A>(a)...) {}
  int algebra_id() const override { return min_user_defined_algebra_id + 4; }
  var_number swap_with(generator<I...> const&, typename generator<I...>::linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
template <typename... I> class gen_user_rev : public generator<I...> {
public:
  template <typename... A> explicit gen_user_rev(A&&... a) : generator<I...>(std::forward<A>(a)...) {}
  int algebra_id() const override { return min_user_defined_algebra_id; }
  var_number swap_with(generator<I...> const&, typename generator<I...>::linear_function_t& f) const override {
    f.set(0);
    return 1;
  }

protected:
  bool less(generator<I...> const& g) const override { return g.indices() < this->indices(); }
  bool greater(generator<I...> const& g) const override { return g.indices() > this->indices(); }
};

// --- generators --------------------------------------------------------------
// reference key: algebra, then the documented rule of each algebra; index
// tuples are represented by their rank in lexicographic order
using Key = std::vector<long>;
template <typename... I> struct Item {
  std::shared_ptr<const generator<I...>> g;
  Key key;
};
template <typename Tuple> static auto gens_over(std::vector<Tuple> const& sorted_tuples) {
  return std::apply(
      [&](auto const&... proto) {
        using gen_t = generator<std::decay_t<decltype(proto)>...>;
        std::vector<Item<std::decay_t<decltype(proto)>...>> r;
        (void)sizeof(gen_t);
        for(std::size_t i = 0; i < sorted_tuples.size(); ++i) {
          long k = long(i);
          std::apply(
              [&](auto const&... x) {
                r.push_back({static_indices::make_fermion(true, x...), {-3, 0, k}});
                r.push_back({static_indices::make_fermion(false, x...), {-3, 1, -k}});
                r.push_back({static_indices::make_boson(true, x...), {-2, 0, k}});
                r.push_back({static_indices::make_boson(false, x...), {-2, 1, -k}});
                for(int m = 2; m <= 4; ++m) {
                  r.push_back({static_indices::make_spin((m - 1) / 2.0, plus, x...), {-1, m, k, 0}});
                  r.push_back({static_indices::make_spin((m - 1) / 2.0, minus, x...), {-1, m, k, 1}});
                  r.push_back({static_indices::make_spin((m - 1) / 2.0, libcommute::z, x...), {-1, m, k, 2}});
                }
                r.push_back({std::make_shared<gen_user_rev<std::decay_t<decltype(x)>...>>(x...), {0, -k}});
                r.push_back({std::make_shared<gen_user<std::decay_t<decltype(x)>...>>(x...), {4, k}});
              },
              sorted_tuples[i]);
        }
        return r;
      },
      sorted_tuples[0]);
}
template <typename... I> static void gen_pairs(mc::Ctx& cx, std::vector<Item<I...>> const& v) {
  cx.bound(mc::str("all ordered pairs of ", v.size(), " generators against the documented key (which implies transitivity on all triples)"));
  for(auto const& a : v)
    cx.test([&] { return mc::str(*a.g, " against all"); },
            [&] {
              for(auto const& b : v) {
                check_cmp(*a.g, *b.g, sgn(a.key, b.key), mc::str(*a.g, " ? ", *b.g));
                cx.trans(4);
                cx.validated();
              }
              cx.state(mc::hstr(mc::str(*a.g)));
            });
}
FAMILY(a_generators_int) {
  std::vector<std::tuple<int>> t;
  for(int i : {std::numeric_limits<int>::min(), -1, 0, 1, 10, std::numeric_limits<int>::max()})
    t.emplace_back(i);
  gen_pairs(cx, gens_over(t));
}
FAMILY(b_generators_tuple) {
  std::vector<std::tuple<std::string, int>> t;
  for(std::string s : {"", "a", "ab", "b"})
    for(int i : {-2, 0, 1})
      t.emplace_back(s, i);
  gen_pairs(cx, gens_over(t));
  std::vector<std::tuple<int, std::string, long>> u;
  for(int i : {-1, 3})
    for(std::string s : {"10", "9", "up"})
      for(long l : {-5000000000l, 5000000000l})
        u.emplace_back(i, s, l);
  gen_pairs(cx, gens_over(u));
}
using dynamic_indices::dyn_indices;
using dynamic_indices::dyn_indices_generic;
static std::vector<dyn_indices::indices_t> all_seqs(int maxlen) {
  // letters in variant order: integers before strings
  std::vector<std::variant<int, std::string>> letters = {-1, 0, 7, std::string(""), std::string("a"), std::string("b")};
  std::vector<dyn_indices::indices_t> r;
  mc::words(int(letters.size()), 0, maxlen, [&](std::vector<int> const& w) {
    dyn_indices::indices_t s;
    for(int i : w)
      s.push_back(letters[i]);
    r.push_back(s);
  });
  return r; // length first, then lexicographic: already in the documented order
}
FAMILY(c_generators_dyn) {
  std::vector<std::tuple<dyn_indices>> t;
  for(auto const& s : all_seqs(cx.pick(1, 2)))
    t.emplace_back(dyn_indices(s));
  gen_pairs(cx, gens_over(t));
}
// --- dynamic index sequences ----------------------------------------------------
FAMILY(d_dyn_indices) {
  auto seqs = all_seqs(cx.pick(3, 4));
  std::vector<dyn_indices> d;
  for(auto const& s : seqs)
    d.emplace_back(s);
  cx.bound(mc::str("all ordered pairs of ", d.size(), " sequences (all of length 0..", cx.pick(3, 4), " over 3 integers and 3 strings)"));
  for(std::size_t i = 0; i < d.size(); ++i)
    cx.test([&] { return mc::str("{", d[i], "} against all"); },
            [&] {
              for(std::size_t j = 0; j < d.size(); ++j)
                check_cmp(d[i], d[j], sgn(i, j), mc::str("{", d[i], "} ? {", d[j], "}"));
              MC_CHECK(d[i].size() == seqs[i].size(), "size");
              MC_CHECK(static_cast<dyn_indices::indices_t const&>(d[i]) == seqs[i], "underlying sequence");
              cx.trans(4 * d.size());
              cx.validated(d.size());
              cx.state(i);
            });
}
FAMILY(e_dyn_generic) {
  using DI = dyn_indices_generic<std::string, int, char>;
  std::vector<std::variant<std::string, int, char>> letters = {std::string("a"), std::string("b"), -3, 2, 'x'};
  std::vector<DI> d;
  mc::words(int(letters.size()), 0, 3, [&](std::vector<int> const& w) {
    DI::indices_t s;
    for(int i : w)
      s.push_back(letters[i]);
    d.emplace_back(s);
  });
  cx.bound(mc::str("all ordered pairs of ", d.size(), " sequences over a custom set of index types"));
  for(std::size_t i = 0; i < d.size(); ++i)
    cx.test([&] { return mc::str("#", i, " against all"); },
            [&] {
              for(std::size_t j = 0; j < d.size(); ++j)
                check_cmp(d[i], d[j], sgn(i, j), mc::str("#", i, " ? #", j));
              cx.trans(4 * d.size());
              cx.validated(d.size());
              cx.state(i);
            });
}
// --- monomials -----------------------------------------------------------------------
FAMILY(f_monomials) {
  std::vector<std::tuple<int>> t{{0}, {1}};
  auto all = gens_over(t);
  std::vector<Item<int>> v;
  for(auto const& x : all)
    if(!(x.key[0] == -1 && x.key[1] == 4)) v.push_back(x);
  if(!cx.thorough()) {
    std::vector<Item<int>> u;
    for(std::size_t i = 0; i < v.size(); ++i)
      if(i % 2 == 0 || i < 6) u.push_back(v[i]);
    v = u;
  }
  std::sort(v.begin(), v.end(), [](auto const& a, auto const& b) { return a.key < b.key; });
  struct M {
    monomial<int> m;
    std::vector<int> w;
  };
  std::vector<M> ms;
  mc::words(int(v.size()), 0, 3, [&](std::vector<int> const& w) {
    std::vector<std::shared_ptr<const generator<int>>> g;
    for(int i : w)
      g.push_back(v[i].g);
    ms.push_back({monomial<int>(g), w});
  });
  cx.bound(mc::str("all ordered pairs of ", ms.size(), " monomials (all words of length 0..3 over ", v.size(), " generators of 5 algebras)"));
  for(std::size_t i = 0; i < ms.size(); ++i)
    cx.test([&] { return mc::str(ms[i].m, " against all"); },
            [&] {
              auto const& a = ms[i];
              for(auto const& b : ms) {
                int r = a.w.size() != b.w.size() ? sgn(a.w.size(), b.w.size()) : sgn(a.w, b.w);
                if((a.m < b.m) != (r < 0) || (a.m > b.m) != (r > 0) || (a.m == b.m) != (r == 0) || (a.m != b.m) != (r != 0)) mc::fail(mc::str(a.m, " ? ", b.m, " expected ", r));
              }
              MC_CHECK(a.m.is_ordered() == std::is_sorted(a.w.begin(), a.w.end()), "is_ordered of ", a.m);
              MC_CHECK(a.m.size() == a.w.size() && a.m.empty() == a.w.empty(), "size");
              cx.trans(4 * ms.size());
              cx.validated(ms.size());
              cx.state(i);
            });
}
// The order inside containers does not depend on insertion order
FAMILY(g_sorted_containers) {
  std::vector<std::tuple<std::string, int>> t{{"a", 1}, {"b", 0}};
  auto all = gens_over(t);
  int n = int(all.size());
  cx.bound(mc::str("all 5-element subsets of ", n, " generators (every ", cx.pick(7, 1), "th), all 120 insertion orders"));
  long cnt = 0;
  mc::tuples({n, n, n, n, n}, [&](std::vector<int> const& q) {
    for(int i = 0; i < 4; ++i)
      if(q[i] >= q[i + 1]) return;
    if(cnt++ % cx.pick(7, 1)) return;
    cx.test([&] { return mc::vec_str(q); },
            [&] {
              std::vector<int> p(q.begin(), q.end());
              std::vector<int> srt = p;
              std::sort(srt.begin(), srt.end(), [&](int a, int b) { return all[a].key < all[b].key; });
              using ptr = std::shared_ptr<const generator<std::string, int>>;
              auto lt = [](ptr const& a, ptr const& b) { return *a < *b; };
              do {
                std::set<ptr, decltype(lt)> s(lt);
                std::vector<ptr> vec;
                for(int i : p) {
                  s.insert(all[i].g);
                  vec.push_back(all[i].g);
                }
                std::sort(vec.begin(), vec.end(), lt);
                MC_CHECK(s.size() == 5, "set lost elements");
                int k = 0;
                for(auto const& x : s) {
                  MC_CHECK(x == all[srt[k]].g && vec[k] == x, "order depends on insertion");
                  ++k;
                }
              } while(std::next_permutation(p.begin(), p.end()));
              cx.trans(240);
              cx.validated(120);
              cx.state(mc::hstr(mc::vec_str(q)));
            });
  });
}
// --- elementary spaces ----------------------------------------------------------------
class es_user : public elementary_space<std::string, int> {
  using base = elementary_space<std::string, int>;

public:
  template <typename... A> es_user(A&&... a) : base(std::forward<A>(a)...) {}
  es_user(es_user const&) = default;
  std::unique_ptr<base> clone() const override { return libcommute::make_unique<es_user>(*this); }
  int algebra_id() const override { return min_user_defined_algebra_id; }
  sv_index_type dim() const override { return 4; }
  int n_bits() const override { return 2; }
};
FAMILY(h_spaces) {
  using ES = elementary_space<std::string, int>;
  struct S {
    std::shared_ptr<ES> p;
    Key key;
    std::string name;
  };
  std::vector<S> v;
  std::vector<std::pair<std::string, int>> idx;
  for(std::string s : {"", "a", "ab", "b"})
    for(int i : {std::numeric_limits<int>::min(), -2, 0, 1, std::numeric_limits<int>::max()})
      idx.emplace_back(s, i);
  for(long k = 0; k < long(idx.size()); ++k) {
    auto const& x = idx[k];
    auto nm = mc::str("(", x.first, ",", x.second, ")");
    v.push_back({std::make_shared<elementary_space_fermion<std::string, int>>(make_space_fermion(x.first, x.second)), {-3, k}, "F" + nm});
    for(int d : {1, 2, 5})
      v.push_back({std::make_shared<elementary_space_boson<std::string, int>>(make_space_boson(d, x.first, x.second)), {-2, k}, mc::str("B", d, nm)});
    for(int m = 2; m <= 5; ++m)
      v.push_back({std::make_shared<elementary_space_spin<std::string, int>>(make_space_spin((m - 1) / 2.0, x.first, x.second)), {-1, m, k}, mc::str("S", m, nm)});
    v.push_back({std::make_shared<es_user>(x.first, x.second), {0, k}, "U" + nm});
  }
  cx.bound(mc::str("all ordered pairs of ", v.size(), " elementary spaces of 4 algebras"));
  for(auto const& a : v)
    cx.test([&] { return a.name + " against all"; },
            [&] {
              auto c = a.p->clone();
              for(auto const& b : v) {
                check_cmp(*a.p, *b.p, sgn(a.key, b.key), a.name + " ? " + b.name);
                check_cmp(*c, *b.p, sgn(a.key, b.key), "clone of " + a.name + " ? " + b.name);
              }
              MC_CHECK(c->indices() == a.p->indices() && c->dim() == a.p->dim() && c->n_bits() == a.p->n_bits() && c->algebra_id() == a.p->algebra_id(), "clone differs");
              cx.trans(8 * v.size());
              cx.validated(2 * v.size());
              cx.state(mc::hstr(a.name));
            });
}
// Spins of any length
FAMILY(i_large_spins) {
  std::vector<int> mult{2, 3, 4, 5, 9, 64, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 513, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 131074, 16777217, 1000000001};
  cx.bound(mc::str("all pairs of spin generators and spaces with ", mult.size(), " multiplicities between 2 and 10^9 and 3 indices, one case per multiplicity"));
  struct G {
    std::shared_ptr<const generator<int>> g;
    std::shared_ptr<elementary_space<int>> e;
    Key key;
  };
  auto v = std::make_shared<std::vector<G>>();
  for(int m : mult)
    for(int i : {-1, 0, 256})
      for(int c = 0; c < 3; ++c) {
        double S = (m - 1.0) / 2;
        v->push_back({make_spin(S, c == 0 ? plus : c == 1 ? minus : libcommute::z, i), std::make_shared<elementary_space_spin<int>>(make_space_spin(S, i)), {-1, m, i, c}});
      }
  for(int i : {-1, 0, 256}) {
    v->push_back({make_fermion(true, i), std::make_shared<elementary_space_fermion<int>>(make_space_fermion(i)), {-3, 0, i, 0}});
    v->push_back({make_boson(true, i), std::make_shared<elementary_space_boson<int>>(make_space_boson(200, i)), {-2, 0, i, 0}});
  }
  for(auto const& a : *v)
    cx.test([&] { return mc::str(*a.g, " against all"); },
            [&, v] {
              for(auto const& b : *v) {
                check_cmp(*a.g, *b.g, sgn(a.key, b.key), mc::str(*a.g, " ? ", *b.g));
                Key ka(a.key.begin(), a.key.end() - 1), kb(b.key.begin(), b.key.end() - 1);
                check_cmp(*a.e, *b.e, sgn(ka, kb), mc::str("spaces of ", *a.g, " ? ", *b.g));
                monomial<int> ma{std::vector<std::shared_ptr<const generator<int>>>{a.g}}, mb{std::vector<std::shared_ptr<const generator<int>>>{b.g}};
                check_cmp(ma, mb, sgn(a.key, b.key), mc::str("monomials ", ma, " ? ", mb));
              }
              if(a.key[0] == -1) {
                auto const& s = dynamic_cast<generator_spin<int> const&>(*a.g);
                MC_CHECK(s.multiplicity() == a.key[1] && s.spin() == (a.key[1] - 1) / 2.0, "multiplicity ", s.multiplicity(), " spin ", s.spin(), " instead of ", a.key[1]);
                MC_CHECK(a.e->dim() == sv_index_type(a.key[1]), "dimension ", a.e->dim());
              }
              cx.trans(12 * v->size());
              cx.validated(3 * v->size());
              cx.state(mc::hstr(mc::str(*a.g)));
            });
}
// Sequences, index tuples and monomials that differ late
FAMILY(j_long_sequences) {
  int L = cx.pick(8, 10);
  cx.bound(mc::str("all pairs of dynamic index sequences up to length ", L, " over 2 letters (an integer and a string), one case per sequence"));
  std::vector<std::variant<int, std::string>> letters = {7, std::string("a")};
  std::vector<dyn_indices> d;
  mc::words(2, 0, L, [&](std::vector<int> const& w) {
    dyn_indices::indices_t s;
    for(int i : w)
      s.push_back(letters[i]);
    d.emplace_back(s);
  });
  for(std::size_t i = 0; i < d.size(); ++i)
    cx.test([&] { return mc::str("{", d[i], "} against all"); },
            [&] {
              auto gi = dynamic_indices::make_fermion(true, d[i]);
              auto si = elementary_space_fermion<dyn_indices>(d[i]);
              for(std::size_t j = 0; j < d.size(); ++j) {
                check_cmp(d[i], d[j], sgn(i, j), mc::str("{", d[i], "} ? {", d[j], "}"));
                check_cmp(*gi, *dynamic_indices::make_fermion(true, d[j]), sgn(i, j), mc::str("generators with {", d[i], "} ? {", d[j], "}"));
                check_cmp(si, elementary_space_fermion<dyn_indices>(d[j]), sgn(i, j), mc::str("spaces with {", d[i], "} ? {", d[j], "}"));
              }
              cx.trans(12 * d.size());
              cx.validated(3 * d.size());
              cx.state(i);
            });
}
FAMILY(k_wide_tuples) {
  cx.bound("all pairs of generators and spaces over all 6-index tuples (int, string, int, int, string, int) with 2 values per index");
  std::vector<std::tuple<int, std::string, int, int, std::string, int>> t;
  for(int b = 0; b < 64; ++b)
    t.emplace_back(b >> 5 & 1, b >> 4 & 1 ? "up" : "dn", b >> 3 & 1 ? 5 : -5, b >> 2 & 1 ? 10 : 9, b >> 1 & 1 ? "b" : "a", b & 1 ? 1 : 0);
  for(std::size_t i = 0; i < t.size(); ++i)
    cx.test([&] { return mc::str("tuple ", i, " against all"); },
            [&] {
              auto mk = [](auto const& u) {
                return std::apply(
                    [](auto const&... x) {
                      std::vector<std::shared_ptr<const generator<int, std::string, int, int, std::string, int>>> r;
                      r.push_back(static_indices::make_fermion(true, x...));
                      r.push_back(static_indices::make_fermion(false, x...));
                      r.push_back(static_indices::make_boson(true, x...));
                      r.push_back(static_indices::make_boson(false, x...));
                      r.push_back(static_indices::make_spin(1, minus, x...));
                      return r;
                    },
                    u);
              };
              auto sp = [](auto const& u) { return std::apply([](auto const&... x) { return make_space_spin(1.5, x...); }, u); };
              for(std::size_t j = 0; j < t.size(); ++j) {
                auto a = mk(t[i]), b = mk(t[j]);
                int r = sgn(i, j);
                // "up" > "dn" and so on: the enumeration is in lexicographic order
                for(int k = 0; k < 5; ++k)
                  check_cmp(*a[k], *b[k], k == 1 || k == 3 ? -r : r, mc::str(*a[k], " ? ", *b[k]));
                check_cmp(sp(t[i]), sp(t[j]), r, mc::str("spaces ", i, " ? ", j));
              }
              cx.trans(24 * t.size());
              cx.validated(6 * t.size());
              cx.state(i);
            });
}
FAMILY(l_long_monomials) {
  int L = cx.pick(6, 7);
  cx.bound(mc::str("all pairs of monomials up to length ", L, " over 3 generators (sharing or not sharing the generator objects), one case per monomial"));
  struct M {
    monomial<int> m;
    std::vector<int> w;
  };
  auto gen = [](int k) -> std::shared_ptr<const generator<int>> {
    if(k == 0) return make_fermion(true, 3);
    if(k == 1) return make_boson(false, 2);
    return make_spin(1, libcommute::z, 1);
  };
  std::shared_ptr<const generator<int>> own[3] = {gen(0), gen(1), gen(2)};
  std::vector<M> ms;
  mc::words(3, 0, L, [&](std::vector<int> const& w) {
    if(cx.thorough() && w.size() == 7 && (w[0] + w[1] + w[2]) % 3) return;
    std::vector<std::shared_ptr<const generator<int>>> g;
    bool fresh = w.size() > 1 && (w[0] + w.back()) % 2;
    for(int i : w)
      g.push_back(fresh ? gen(i) : own[i]);
    ms.push_back({monomial<int>(g), w});
  });
  for(std::size_t i = 0; i < ms.size(); ++i)
    cx.test([&] { return mc::str(ms[i].m, " against all"); },
            [&] {
              auto const& a = ms[i];
              for(auto const& b : ms) {
                int r = a.w.size() != b.w.size() ? sgn(a.w.size(), b.w.size()) : sgn(a.w, b.w);
                if((a.m < b.m) != (r < 0) || (a.m > b.m) != (r > 0) || (a.m == b.m) != (r == 0) || (a.m != b.m) != (r != 0)) mc::fail(mc::str(a.m, " ? ", b.m, " expected ", r));
              }
              MC_CHECK(a.m.is_ordered() == std::is_sorted(a.w.begin(), a.w.end()), "is_ordered of ", a.m);
              cx.trans(4 * ms.size());
              cx.validated(ms.size());
              cx.state(i);
            });
}
