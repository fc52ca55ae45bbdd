// C12: Hilbert space layout is determined by its set of elementary spaces
#include "refhs.hpp"
using namespace refhs;

static std::vector<ES> const POOL{{0, 2, 0}, {0, 2, 1}, {0, 2, 7}, {1, 1, 0}, {1, 2, 1}, {1, 3, 0}, {1, 4, 2}, {1, 5, 1}, {2, 2, 0}, {2, 3, 0}, {2, 3, 1}, {2, 4, 0}, {2, 6, 2}, {2, 2, -1}, {10, 3, 0}, {10, 4, 1}, {11, 1, 0}, {11, 2, 3}, {13, 5, 0}};

// every order of insertion, and the constructors
FAMILY(insertion_orders) {
  int k = cx.pick(3, 4);
  cx.bound(mc::str("all subsets of up to ", k, " of 19 elementary spaces (fermion, boson dims 1-5, spin mult 2-6, user algebras), every insertion order, add()/pointer-list/variadic construction"));
  subsets(POOL, k, [&](std::vector<ES> const& set) {
    cx.test([&] { return set_str(set); },
            [&] {
              std::vector<int> perm;
              for(std::size_t i = 0; i < set.size(); ++i)
                perm.push_back(int(i));
              HS ref = build(set);
              do {
                std::vector<ES> v;
                for(int i : perm)
                  v.push_back(set[i]);
                HS hs;
                std::vector<ES> part;
                for(auto const& e : v) {
                  hs.add(*make(e));
                  part.push_back(e);
                  check(hs, part, POOL, "add");
                  cx.trans();
                }
                std::vector<ESp> own;
                std::vector<elementary_space<int>*> ptr;
                for(auto const& e : v) {
                  own.push_back(make(e));
                  ptr.push_back(own.back().get());
                }
                HS hv(ptr);
                check(hv, v, POOL, "vector constructor");
                MC_CHECK(hv == hs && hs == ref && !(hs != ref), "equality of the same space built along two routes, ", set_str(v));
                HS c1(hv);
                check(c1, v, POOL, "copy constructor");
                HS c2;
                c2 = hv;
                check(c2, v, POOL, "copy assignment");
                check(hv, v, POOL, "source of a copy");
                HS m1(std::move(c1));
                check(m1, v, POOL, "move constructor");
                HS m2;
                m2 = std::move(m1);
                check(m2, v, POOL, "move assignment");
                cx.trans(6);
                cx.validated(7 + v.size());
              } while(std::next_permutation(perm.begin(), perm.end()));
              cx.state(hash(layout(set)));
            });
  });
}
FAMILY(variadic_constructor) {
  cx.bound("variadic constructor: all ordered pairs and triples of concrete elementary spaces");
  using namespace static_indices;
  auto f = [&](int n) { return make_space_fermion(n); };
  auto b = [&](int d, int n) { return make_space_boson(d, n); };
  auto s = [&](double S, int n) { return make_space_spin(S, n); };
  auto go = [&](std::vector<ES> v, auto const& build_) {
    cx.test([&] { return "variadic " + set_str(v); },
            [&] {
              HS hs = build_();
              check(hs, v, POOL, "variadic constructor");
              cx.trans();
              cx.validated();
              cx.state(mc::hstr(set_str(v)));
            });
  };
  for(int i = 0; i < 3; ++i)
    for(int d : {1, 2, 3, 4, 5, 8})
      for(int m = 2; m <= 5; ++m) {
        ES F{0, 2, i}, B{1, uint64_t(d), i}, S{2, uint64_t(m), 2 - i}, T{2, 3, 3};
        double sp = (m - 1) / 2.0;
        go({F, B}, [&] { return HS(f(i), b(d, i)); });
        go({B, F}, [&] { return HS(b(d, i), f(i)); });
        go({S, B}, [&] { return HS(s(sp, 2 - i), b(d, i)); });
        go({F, B, S}, [&] { return HS(f(i), b(d, i), s(sp, 2 - i)); });
        go({B, S, F}, [&] { return HS(b(d, i), s(sp, 2 - i), f(i)); });
        go({S, F, B}, [&] { return HS(s(sp, 2 - i), f(i), b(d, i)); });
        go({T, S, F, B}, [&] { return HS(s(1, 3), s(sp, 2 - i), f(i), b(d, i)); });
        go({F, S, B, T}, [&] { return HS(f(i), s(sp, 2 - i), b(d, i), s(1, 3)); });
      }
}

// --- expressions -----------------------------------------------------------------
struct Gn {
  int kind, comp;
  int mult, idx;
};
static std::shared_ptr<const generator<int>> mk(Gn const& g) {
  using namespace static_indices;
  if(g.kind == 0) return make_fermion(g.comp == 1, int(g.idx));
  if(g.kind == 1) return make_boson(g.comp == 1, int(g.idx));
  return make_spin((g.mult - 1) / 2.0, g.comp == 0 ? plus : g.comp == 1 ? minus : z, int(g.idx));
}
// user-supplied constructor functor with site-dependent boson dimensions
struct site_dims {
  std::vector<int> dims;
  ESp operator()(generator<int> const& g) const {
    if(g.algebra_id() == boson) return ESp(new elementary_space_boson<int>(dims[std::get<0>(g.indices())], g.indices()));
    return default_es_constructor()(g);
  }
};
FAMILY(from_expression) {
  std::vector<Gn> G{{0, 1, 0, 0}, {0, 0, 0, 0}, {0, 1, 0, 1}, {0, 0, 0, 2}, {1, 1, 0, 0}, {1, 0, 0, 0}, {1, 0, 0, 1}, {2, 0, 2, 0}, {2, 2, 2, 0}, {2, 1, 3, 0}, {2, 2, 3, 1}, {2, 2, 4, 0}};
  int L = cx.pick(3, 4);
  cx.bound(mc::str("expressions: all words of up to ", L, " generators out of ", G.size(), " as one monomial and as a sum; boson_es_constructor dims 1..4 and a site-dependent functor; layout equals that of the set of spaces"));
  mc::words(int(G.size()), 0, L, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              using E = expression<double, int>;
              E prod(1.0), sum, sq;
              bool has_boson = false;
              for(int i : w) {
                E g(1.0, monomial<int>(std::vector<std::shared_ptr<const generator<int>>>{mk(G[i])}));
                prod = prod * g;
                sum += g;
                has_boson = has_boson || G[i].kind == 1;
              }
              sum += 3.0 + sum * conj(sum);
              for(E const& e : {prod, sum}) {
                // the set of spaces, from the stored generators
                std::vector<Gn> gens;
                for(auto const& m : e.get_monomials())
                  for(auto const& g : m.first) {
                    int id = g.algebra_id(), idx = std::get<0>(g.indices());
                    int mult = id == spin ? dynamic_cast<generator_spin<int> const&>(g).multiplicity() : 0;
                    gens.push_back({id == fermion ? 0 : id == boson ? 1 : 2, 0, mult, idx});
                  }
                auto collect = [&](std::function<int(int)> bd) {
                  std::vector<ES> v;
                  for(auto const& g : gens) {
                    ES x{g.kind, uint64_t(g.kind == 0 ? 2 : g.kind == 1 ? bd(g.idx) : g.mult), g.idx};
                    bool dup = false;
                    for(auto const& y : v)
                      dup = dup || same(x, y);
                    if(!dup) v.push_back(x);
                  }
                  return v;
                };
                for(int d = 1; d <= 4; ++d) {
                  auto v = collect([&](int) { return d; });
                  check(make_hilbert_space(e, boson_es_constructor(d)), v, POOL, "make_hilbert_space");
                  check(HS(e, es_constructor<fermion, boson, spin>(d)), v, {}, "expression constructor");
                  cx.state(hash(layout(v)));
                }
                site_dims sd{{3, 6, 2}};
                check(make_hilbert_space(e, sd), collect([&](int i) { return sd.dims[i]; }), {}, "make_hilbert_space(functor)");
                if(!has_boson) {
                  check(make_hilbert_space(e), collect(nullptr), POOL, "make_hilbert_space(default)");
                  check(HS(e), collect(nullptr), {}, "expression constructor (default)");
                }
                cx.trans(10);
                cx.validated(10);
              }
            });
  });
}

// --- histories of two registers ----------------------------------------------------
FAMILY(register_histories) {
  std::vector<ES> pool{{0, 2, 0}, {1, 3, 0}, {2, 3, 0}, {10, 2, 0}};
  int np = int(pool.size());
  // ops: add p to A | add p to B | A=B | B=A | A=A | B=copy(A) | swap by moves | A=HS()
  int nops = 2 * np + 6;
  int L = cx.pick(4, 5);
  cx.bound(mc::str("two Hilbert space registers: all histories of length ", L, " over add, copy/self/move assignment, copy construction, reset"));
  mc::words(nops, 1, L, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              HS r[2];
              std::vector<ES> m[2];
              for(int op : w) {
                cx.trans();
                if(op < 2 * np) {
                  int k = op / np;
                  ES e = pool[op % np];
                  bool dup = false;
                  for(auto const& x : m[k])
                    dup = dup || same(x, e);
                  if(dup) return; // refused requests: C14
                  r[k].add(*make(e));
                  m[k].push_back(e);
                } else
                  switch(op - 2 * np) {
                  case 0: r[0] = r[1]; m[0] = m[1]; break;
                  case 1: r[1] = r[0]; m[1] = m[0]; break;
                  case 2: {
                    HS& self = r[0];
                    r[0] = self;
                    break;
                  }
                  case 3: {
                    HS c(r[0]);
                    r[1] = std::move(c);
                    m[1] = m[0];
                    break;
                  }
                  case 4: {
                    HS t(std::move(r[0]));
                    r[0] = std::move(r[1]);
                    r[1] = std::move(t);
                    std::swap(m[0], m[1]);
                    break;
                  }
                  case 5: r[0] = HS(); m[0].clear(); break;
                  }
              }
              for(int k = 0; k < 2; ++k) {
                check(r[k], m[k], pool, mc::str("register ", k));
                std::vector<uint64_t> seen;
                foreach(r[k], [&](sv_index_type i) { seen.push_back(i); });
                MC_CHECK(seen == states(layout(m[k])), "enumeration of register ", k);
              }
              auto sorted = [](std::vector<ES> v) { std::sort(v.begin(), v.end()); return set_str(v); };
              bool eq = sorted(m[0]) == sorted(m[1]);
              MC_CHECK((r[0] == r[1]) == eq && (r[0] != r[1]) == !eq, "equality of registers");
              cx.validated(3);
              cx.state(mc::hcomb(hash(layout(m[0])), hash(layout(m[1]))));
            });
  });
}

// --- equality ---------------------------------------------------------------------------
FAMILY(equality) {
  std::vector<ES> pool{{0, 2, 0}, {0, 2, 1}, {1, 2, 0}, {1, 3, 0}, {1, 4, 0}, {1, 4, 1}, {2, 2, 0}, {2, 3, 0}, {2, 4, 0}, {2, 3, 1}, {10, 3, 0}, {10, 4, 0}};
  std::vector<std::vector<ES>> sets;
  subsets(pool, 3, [&](std::vector<ES> const& s) { sets.push_back(s); });
  cx.bound(mc::str("operator== of Hilbert spaces: all ", sets.size(), "^2 pairs of subsets of up to 3 of 12 spaces"));
  for(std::size_t i = 0; i < sets.size(); ++i)
    cx.test([&] { return set_str(sets[i]); },
            [&] {
              HS a = build(sets[i]);
              for(std::size_t j = 0; j < sets.size(); ++j) {
                HS b = build(sets[j]);
                bool eq = i == j;
                MC_CHECK((a == b) == eq, set_str(sets[i]), " == ", set_str(sets[j]), " gives ", !eq);
                MC_CHECK((a != b) == !eq, set_str(sets[i]), " != ", set_str(sets[j]));
                cx.trans();
                cx.validated();
              }
              cx.state(i);
            });
}

// --- large dimensions ---------------------------------------------------------------------
FAMILY(large_dimensions) {
  cx.bound("one boson of dimension 2^k-1, 2^k, 2^k+1 (k=0..62) next to fermions and spins of multiplicity up to 2^20+1; total up to 63 bits");
  for(int k = 0; k <= 62; ++k)
    for(int d = -1; d <= 1; ++d) {
      uint64_t dim = (uint64_t(1) << k) + d;
      if(dim == 0) continue;
      for(int extra = 0; extra < 3; ++extra)
        cx.test([&] { return mc::str("boson of dimension 2^", k, d < 0 ? "-1" : d > 0 ? "+1" : "", " extra ", extra); },
                [&] {
                  std::vector<ES> v{{1, dim, 0}};
                  if(extra >= 1) v.push_back({0, 2, 0});
                  if(extra >= 2) v.push_back({2, 3, 0});
                  auto p = make(v[0]);
                  MC_CHECK(p->n_bits() == es_bits(v[0]), "n_bits() of dimension ", dim, " is ", p->n_bits());
                  MC_CHECK(p->dim() == dim, "dim()");
                  if(layout(v).bits > 63) return; // C14
                  check(build(v), v, {}, "large");
                  HS c = build(v);
                  HS c2(c);
                  check(c2, v, {}, "copy of large");
                  cx.trans(3);
                  cx.validated(3);
                  cx.state(hash(layout(v)));
                });
    }
  for(int m = 2; m <= (1 << 20) + 1; m = m < 70 ? m + 1 : (((m - 1) & (m - 2)) == 0 ? m * 2 - 3 : m + 1)) // around powers of two
    cx.test([&] { return mc::str("spin of multiplicity ", m); },
            [&] {
              std::vector<ES> v{{2, uint64_t(m), 0}, {2, 2, 1}};
              check(build(v), v, {}, "spin");
              cx.trans();
              cx.validated();
              cx.state(uint64_t(m) << 32);
            });
}

// --- large spaces by every construction route ----------------------------------------------
FAMILY(large_routes) {
  std::vector<int> nf{0, 1, 2, 7, 30, 31, 32, 33, 47, 61, 62, 63}, nb{0, 1, 2, 5, 11, 16, 21, 31}, db{1, 2, 3, 5, 8, 1000}, ns{0, 1, 3, 10, 31};
  cx.bound("all combinations of 0..63 fermions, 0..31 bosons of dimension 1..1000 and 0..31 spins 1 of 63 bits or less; from expressions (sum, one product), vectors and additions");
  for(int a : nf)
    for(int b : nb)
      for(int d : db) {
        if(b == 0 && d != 1) continue;
        for(int c : ns) {
          std::vector<ES> v;
          for(int i = 0; i < a; ++i)
            v.push_back({0, 2, i});
          for(int i = 0; i < b; ++i)
            v.push_back({1, uint64_t(d), i});
          for(int i = 0; i < c; ++i)
            v.push_back({2, 3, i});
          if(layout(v).bits > 63) continue;
          cx.test([&] { return mc::str(a, " fermions, ", b, " bosons of dimension ", d, ", ", c, " spins 1"); },
                  [&] {
                    using E = expression<double, int>;
                    E sum, prod(1.0);
                    std::vector<std::shared_ptr<const generator<int>>> all;
                    for(auto const& x : v)
                      all.push_back(mk(Gn{x.kind, 1, int(x.par), x.idx}));
                    for(auto const& g : all)
                      sum += E(1.0, monomial<int>(std::vector<std::shared_ptr<const generator<int>>>{g}));
                    E one(1.0, monomial<int>(all));
                    for(E const& e : {sum, one}) {
                      check(make_hilbert_space(e, boson_es_constructor(d)), v, {}, "make_hilbert_space");
                      check(HS(e, es_constructor<fermion, boson, spin>(d)), v, {}, "expression constructor");
                      if(b == 0) check(HS(e), v, {}, "expression constructor (default)");
                    }
                    HS added = build(v);
                    check(added, v, {}, "additions");
                    std::vector<std::unique_ptr<elementary_space<int>>> own;
                    std::vector<elementary_space<int>*> ptrs;
                    for(std::size_t i = v.size(); i-- != 0;) {
                      own.push_back(make(v[i]));
                      ptrs.push_back(own.back().get());
                    }
                    HS vec(ptrs);
                    check(vec, v, {}, "vector constructor");
                    MC_CHECK(vec == added && HS(one, es_constructor<fermion, boson, spin>(d)) == added, "routes differ");
                    HS copy(vec), asg;
                    asg = vec;
                    check(copy, v, {}, "copy");
                    check(asg, v, {}, "assignment");
                    cx.trans(9);
                    cx.validated(9);
                    cx.state(hash(layout(v)));
                  });
        }
      }
}
