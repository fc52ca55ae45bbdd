// C14: invalid Hilbert space requests are refused without corrupting the space
#include "refhs.hpp"
using namespace refhs;

static std::vector<ES> const POOL{{0, 2, 0}, {1, 3, 0}, {1, uint64_t(1) << 30, 1}, {1, (uint64_t(1) << 31) + 1, 2}, {2, 3, 0}, {2, 2, 0}, {10, 4, 0}, {1, uint64_t(1) << 62, 3}};
static bool contains(std::vector<ES> const& v, ES const& e) {
  for(auto const& x : v)
    if(same(x, e)) return true;
  return false;
}
// add() with the reference's verdict; returns true if accepted
static bool add(HS& hs, std::vector<ES>& model, ES const& e) {
  bool dup = contains(model, e);
  std::vector<ES> bigger = model;
  bigger.push_back(e);
  bool big = !dup && layout(bigger).bits > 63;
  auto p = make(e);
  try {
    hs.add(*p);
  } catch(HS::elementary_space_exists const& x) {
    MC_CHECK(dup, "duplicate reported for ", es_str(e), " on ", set_str(model));
    MC_CHECK(x.elementary_space_ptr && *x.elementary_space_ptr == *p, "elementary_space_exists carries another space");
    return false;
  } catch(HS::hilbert_space_too_big const& x) {
    MC_CHECK(big, "too big reported for ", es_str(e), " on ", set_str(model));
    MC_CHECK(x.n_bits == layout(bigger).bits, "hilbert_space_too_big carries n_bits = ", x.n_bits);
    return false;
  }
  MC_CHECK(!dup && !big, "accepted ", es_str(e), " on ", set_str(model));
  model = bigger;
  return true;
}
static void first_states(HS const& hs, std::vector<ES> const& m) {
  Layout l = layout(m);
  std::vector<uint64_t> got;
  struct Stop {};
  try {
    foreach(hs, [&](sv_index_type i) {
      got.push_back(i);
      if(got.size() == 60) throw Stop();
    });
  } catch(Stop const&) {
  }
  std::vector<uint64_t> digit(l.es.size(), 0), ref;
  for(int k = 0; k < 60; ++k) {
    uint64_t s = 0;
    for(std::size_t i = 0; i < l.es.size(); ++i)
      if(es_bits(l.es[i])) s |= digit[i] << l.range[i].first;
    ref.push_back(s);
    std::size_t i = 0;
    for(; i < l.es.size(); ++i) {
      if(++digit[i] < es_dim(l.es[i])) break;
      digit[i] = 0;
    }
    if(i == l.es.size()) break;
  }
  MC_CHECK(got == ref, "enumeration on ", set_str(m), ": ", got.size(), " states");
}
FAMILY(add_histories) {
  int L = cx.pick(5, 6);
  cx.bound(mc::str("all sequences of ", L, " add() requests over 8 spaces incl. duplicates and spaces of 30, 32 and 62 bits: verdict by exception type, all queries and the enumeration after every request"));
  mc::words(int(POOL.size()), 1, L, [&](std::vector<int> const& w) {
    // prefixes are cases of their own: check the state after the last request
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              HS hs;
              std::vector<ES> model;
              for(std::size_t i = 0; i < w.size(); ++i) {
                add(hs, model, POOL[w[i]]);
                cx.trans();
                if(i + 1 == w.size() || i + 2 == w.size()) check(hs, model, POOL, mc::str("after request ", i));
              }
              first_states(hs, model);
              HS c(hs);
              check(c, model, {}, "copy");
              cx.validated(3);
              cx.state(hash(layout(model)));
            });
  });
}
FAMILY(boundary) {
  cx.bound("boundary of 63 bits: every split of total bits 61..66 into two or three spaces, in every order of addition; fermions beyond the limit");
  for(int total = 61; total <= 66; ++total)
    for(int b1 = 0; b1 <= total; ++b1)
      for(int b2 : {0, 1, 2, 31, 32, 33})
        for(int nonpow = 0; nonpow < 2; ++nonpow) {
          int b3 = total - b1 - b2;
          if(b3 < 0 || b1 > 63 || b3 > 63) continue;
          cx.test([&] { return mc::str("bits ", b1, "+", b2, "+", b3, " nonpow ", nonpow); },
                  [&] {
                    auto dim = [&](int b) { return nonpow && b >= 2 ? (uint64_t(1) << (b - 1)) + 1 : uint64_t(1) << b; };
                    std::vector<ES> v{{1, dim(b1), 0}, {1, dim(b2), 1}, {1, dim(b3), 2}};
                    std::vector<int> p{0, 1, 2};
                    do {
                      HS hs;
                      std::vector<ES> m;
                      for(int i : p) {
                        add(hs, m, v[i]);
                        check(hs, m, v, "boundary");
                        cx.trans();
                      }
                      add(hs, m, {0, 2, 5});
                      check(hs, m, v, "boundary+fermion");
                      cx.validated(4);
                      cx.state(mc::hcomb(hash(layout(m)), total));
                    } while(std::next_permutation(p.begin(), p.end()));
                    // constructors refuse as a whole
                    std::vector<ESp> own;
                    std::vector<elementary_space<int>*> ptr;
                    for(auto const& e : v) {
                      own.push_back(make(e));
                      ptr.push_back(own.back().get());
                    }
                    if(total > 63)
                      mc::expect_throw<HS::hilbert_space_too_big>([&] { HS h(ptr); }, "constructor");
                    else
                      check(HS(ptr), v, {}, "constructor");
                    if(total > 63)
                      mc::expect_throw<HS::hilbert_space_too_big>([&] { HS h(static_indices::make_space_boson(dim(b1), 0), static_indices::make_space_boson(dim(b2), 1), static_indices::make_space_boson(dim(b3), 2)); }, "variadic constructor");
                    else
                      check(HS(static_indices::make_space_boson(dim(b1), 0), static_indices::make_space_boson(dim(b2), 1), static_indices::make_space_boson(dim(b3), 2)), v, {}, "variadic constructor");
                    cx.validated(2);
                  });
        }
  // expressions with many generators
  for(int nf = 58; nf <= 68; ++nf)
    for(int nb = 0; nb <= 3; ++nb)
      cx.test([&] { return mc::str(nf, " fermions, ", nb, " bosons of dimension 4"); },
              [&] {
                using namespace static_indices;
                expression<double, int> e;
                std::vector<ES> v;
                for(int i = 0; i < nf; ++i) {
                  e += c_dag(i);
                  v.push_back({0, 2, i});
                }
                for(int i = 0; i < nb; ++i) {
                  e += a(i);
                  v.push_back({1, 4, i});
                }
                cx.trans();
                cx.validated();
                if(layout(v).bits > 63) {
                  try {
                    auto h = make_hilbert_space(e, boson_es_constructor(4));
                  } catch(HS::hilbert_space_too_big const& x) {
                    MC_CHECK(x.n_bits == layout(v).bits, "n_bits = ", x.n_bits);
                    return;
                  }
                  mc::fail("not refused");
                }
                check(make_hilbert_space(e, boson_es_constructor(4)), v, {}, "make_hilbert_space");
              });
}
FAMILY(duplicates_in_constructors) {
  cx.bound("duplicates among constructor arguments: all sequences of up to 4 spaces from a pool with equivalent members (equal indices, different boson dimension)");
  std::vector<ES> pool{{0, 2, 0}, {0, 2, 1}, {1, 3, 0}, {1, 4, 0}, {2, 2, 0}, {2, 3, 0}};
  mc::words(int(pool.size()), 1, 4, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              std::vector<ESp> own;
              std::vector<elementary_space<int>*> ptr;
              std::vector<ES> m;
              bool dup = false;
              for(int i : w) {
                dup = dup || contains(m, pool[i]);
                m.push_back(pool[i]);
                own.push_back(make(pool[i]));
                ptr.push_back(own.back().get());
              }
              cx.trans(2);
              cx.validated();
              if(dup)
                mc::expect_throw<HS::elementary_space_exists>([&] { HS h(ptr); }, "vector constructor");
              else
                check(HS(ptr), m, pool, "vector constructor");
              // add() one by one
              HS hs;
              std::vector<ES> mm;
              for(int i : w)
                add(hs, mm, pool[i]);
              check(hs, mm, {}, "add");
              cx.state(hash(layout(mm)));
            });
  });
}
// --- elementary space constructors -----------------------------------------------------
struct UserGen : generator<int> {
  int id;
  UserGen(int id, int k) : generator<int>(k), id(id) {}
  int algebra_id() const override { return id; }
  var_number swap_with(generator<int> const&, linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
FAMILY(es_constructors) {
  cx.bound("es_constructor<...> over every subset of {fermion, boson, spin} applied to expressions over every subset of {fermion, boson, spin, two user algebras}: success exactly when all algebras are supported, otherwise es_construction_failure naming an unsupported generator");
  using namespace static_indices;
  using Ex = expression<double, int>;
  for(int have = 0; have < 32; ++have)
    for(int order = 0; order < 3; ++order)
      cx.test([&] { return mc::str("expression over algebras mask ", have, " form ", order); },
              [&] {
                auto one = [](std::shared_ptr<const generator<int>> g) { return Ex(1.0, monomial<int>(std::vector<std::shared_ptr<const generator<int>>>{g})); };
                std::vector<Ex> parts;
                std::vector<ES> sets;
                if(have & 1) parts.push_back(one(make_fermion(true, 3))), sets.push_back({0, 2, 3});
                if(have & 2) parts.push_back(one(make_boson(false, 1))), sets.push_back({1, 4, 1});
                if(have & 4) parts.push_back(one(make_spin(1.0, plus, 2))), sets.push_back({2, 3, 2});
                if(have & 8) parts.push_back(one(std::make_shared<UserGen>(0, 5)));
                if(have & 16) parts.push_back(one(std::make_shared<UserGen>(7, 6)));
                Ex e;
                if(order == 0)
                  for(auto const& p : parts)
                    e += p;
                else {
                  e = Ex(1.0);
                  if(order == 1)
                    for(auto const& p : parts)
                      e = e * p;
                  else
                    for(std::size_t i = parts.size(); i-- > 0;)
                      e = e * parts[i] + 1.0;
                }
                auto go = [&](auto const& ctor, int mask, char const* name) {
                  cx.trans();
                  cx.validated();
                  bool ok = (have & ~mask) == 0;
                  try {
                    auto hs = make_hilbert_space(e, ctor);
                    MC_CHECK(ok, name, " accepted algebras ", have);
                    check(hs, sets, {}, name);
                    cx.state(mc::hcomb(have, mask));
                  } catch(es_construction_failure<int> const& x) {
                    MC_CHECK(!ok, name, " refused algebras ", have);
                    MC_CHECK(x.generator_ptr != nullptr, "no generator in the exception");
                    int id = x.generator_ptr->algebra_id();
                    int bit = id == fermion ? 1 : id == boson ? 2 : id == spin ? 4 : id == 0 ? 8 : 16;
                    MC_CHECK((have & bit) && !(mask & bit), name, " blames a supported generator");
                  }
                };
                // A single-ID constructor is documented to be called for its own algebra only
                if(!(have & ~1)) go(es_constructor<fermion>(), 1, "<fermion>");
                if(!(have & ~2)) go(es_constructor<boson>(4), 2, "<boson>");
                if(!(have & ~4)) go(es_constructor<spin>(), 4, "<spin>");
                go(es_constructor<fermion, boson>(4), 3, "<fermion,boson>");
                go(es_constructor<fermion, spin>(), 5, "<fermion,spin>");
                go(es_constructor<boson, spin>(4), 6, "<boson,spin>");
                go(es_constructor<fermion, boson, spin>(4), 7, "<fermion,boson,spin>");
                go(default_es_constructor(), 5, "default");
                go(boson_es_constructor(4), 7, "boson_es_constructor");
              });
}
// --- requests through operators ----------------------------------------------------------
FAMILY(operator_requests) {
  cx.bound("operators whose generators have no elementary space: every subset of spaces x every single generator; refusal leaves the space intact");
  using namespace static_indices;
  std::vector<ES> pool{{0, 2, 0}, {0, 2, 1}, {1, 3, 0}, {2, 2, 0}, {2, 3, 0}};
  subsets(pool, 5, [&](std::vector<ES> const& set) {
    cx.test([&] { return set_str(set); },
            [&] {
              HS const hs = build(set);
              auto go = [&](auto const& e, ES need) {
                cx.trans();
                cx.validated();
                bool ok = contains(set, need);
                bool thrown = false;
                try {
                  auto op = make_loperator(e, hs);
                } catch(unknown_generator<int> const&) {
                  thrown = true;
                }
                MC_CHECK(thrown == !ok, "operator needing ", es_str(need), " on ", set_str(set), thrown ? " refused" : " accepted");
                check(hs, set, pool, "after operator construction");
              };
              go(c_dag(0), ES{0, 2, 0});
              go(c(1), ES{0, 2, 1});
              go(n(1), ES{0, 2, 1});
              go(a(0), ES{1, 3, 0});
              go(a_dag(0) * a(0), ES{1, 3, 0});
              go(S_p(0), ES{2, 2, 0});
              go(S_z<3>(0), ES{2, 3, 0});
              go(S_z<4>(0), ES{2, 4, 0});
              go(c(5), ES{0, 2, 5});
              cx.state(hash(layout(set)));
            });
  });
}
