// C13: enumerating a Hilbert space visits every valid basis state exactly once
#include "refhs.hpp"
using namespace refhs;

static std::vector<uint64_t> seen(HS const& hs) {
  std::vector<uint64_t> v;
  foreach(hs, [&](sv_index_type i) {
    if(v.size() > 2000000) throw std::length_error("far too many states");
    v.push_back(i);
  });
  return v;
}
static std::string head(std::vector<uint64_t> const& v) {
  std::string s = mc::str(v.size(), " states:");
  for(std::size_t i = 0; i < std::min<std::size_t>(v.size(), 40); ++i)
    s += mc::str(" ", v[i]);
  return s;
}
static void check_enum(HS const& hs, std::vector<ES> const& set, std::string const& what) {
  Layout l = layout(set);
  auto ref = states(l);
  auto got = seen(hs);
  if(got != ref) mc::fail(what + " of " + set_str(l.es) + ": visited " + head(got) + ", expected " + head(ref));
  MC_CHECK(got.size() == hs.dim(), what, ": number of calls is not dim() = ", hs.dim());
  MC_CHECK(got.empty() || got.back() < hs.vec_size(), what, ": index beyond vec_size()");
}

// Dimension tuples: sequence of user spaces with these dimensions, in order
static std::vector<ES> user_set(std::vector<int> const& dims) {
  std::vector<ES> v;
  for(std::size_t i = 0; i < dims.size(); ++i)
    v.push_back({10, uint64_t(dims[i]), int(i)});
  return v;
}
FAMILY(dimension_tuples) {
  int maxd = cx.pick(6, 9), L = 4;
  cx.bound(mc::str("all tuples of up to ", L, " elementary dimensions 1..", maxd, " (order matters)"));
  mc::words(maxd, 0, L, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              std::vector<int> d;
              for(int i : w)
                d.push_back(i + 1);
              auto set = user_set(d);
              HS hs = build(set);
              check_enum(hs, set, "foreach");
              check_enum(hs, set, "second foreach");
              cx.trans(2);
              cx.validated(2);
              cx.state(hash(layout(set)));
            });
  });
}
FAMILY(longer_tuples) {
  int L = cx.pick(8, 9);
  cx.bound(mc::str("all tuples of 5..", L, " elementary dimensions from {1,2,3} and of 5 from {1,2,3,5,6}"));
  auto go = [&](std::vector<int> const& D, int lo, int hi) {
    mc::words(int(D.size()), lo, hi, [&](std::vector<int> const& w) {
      cx.test([&] { return mc::vec_str(w); },
              [&] {
                std::vector<int> d;
                for(int i : w)
                  d.push_back(D[i]);
                auto set = user_set(d);
                check_enum(build(set), set, "foreach");
                cx.trans();
                cx.validated();
                cx.state(hash(layout(set)));
              });
    });
  };
  go({1, 2, 3}, 5, L);
  go({1, 2, 3, 5, 6}, 5, 5);
}
FAMILY(physical_spaces) {
  std::vector<ES> pool{{0, 2, 0}, {0, 2, 1}, {1, 1, 0}, {1, 3, 1}, {1, 4, 2}, {1, 6, 3}, {2, 2, 0}, {2, 3, 0}, {2, 5, 0}, {2, 4, 0}, {10, 3, 0}};
  int k = cx.pick(5, 6);
  cx.bound(mc::str("all subsets of up to ", k, " of ", pool.size(), " fermion/boson/spin/user spaces"));
  subsets(pool, k, [&](std::vector<ES> const& set) {
    cx.test([&] { return set_str(set); },
            [&] {
              HS hs;
              std::vector<ES> part;
              for(auto const& e : set) { // also after each growth step
                hs.add(*make(e));
                part.push_back(e);
                check_enum(hs, part, "foreach while growing");
                cx.trans();
              }
              HS c(hs);
              check_enum(c, set, "foreach of a copy");
              check_enum(hs, set, "foreach of the source of a copy");
              HS d;
              d.add(*make({10, 7, 9}));
              d = hs;
              check_enum(d, set, "foreach after assignment");
              HS m(std::move(c));
              check_enum(m, set, "foreach after move");
              cx.validated(3 + set.size());
              cx.state(hash(layout(set)));
            });
  });
}

// --- nesting and interleaving -------------------------------------------------------
struct Stop {};
FAMILY(nested) {
  cx.bound("nested enumerations: all tuples of 1..3 dimensions in 1..4; at every outer state an inner enumeration of the same (and of a copied) space, complete or abandoned by an exception after every number of calls");
  mc::words(4, 1, 3, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              std::vector<int> d;
              for(int i : w)
                d.push_back(i + 1);
              auto set = user_set(d);
              HS const hs = build(set);
              HS const cp(hs);
              auto ref = states(layout(set));
              for(int mode = 0; mode < 2; ++mode) {
                std::vector<uint64_t> outer;
                foreach(hs, [&](sv_index_type i) {
                  outer.push_back(i);
                  std::vector<uint64_t> inner;
                  foreach(mode ? cp : hs, [&](sv_index_type j) { inner.push_back(j); });
                  MC_CHECK(inner == ref, "inner enumeration at outer state ", i, ": ", head(inner), ", expected ", head(ref));
                });
                MC_CHECK(outer == ref, "outer enumeration: ", head(outer), ", expected ", head(ref));
                cx.trans(ref.size() + 1);
                cx.validated(ref.size() + 1);
              }
              // abandoned enumerations leave nothing behind
              for(std::size_t stop = 0; stop < std::min<std::size_t>(ref.size(), 8); ++stop) {
                std::vector<uint64_t> part;
                try {
                  foreach(hs, [&](sv_index_type i) {
                    part.push_back(i);
                    if(part.size() == stop + 1) throw Stop();
                  });
                  mc::fail("exception of the functor was swallowed");
                } catch(Stop const&) {
                }
                MC_CHECK(seen(hs) == ref, "enumeration after an abandoned one, stop=", stop);
                // three levels, the middle one abandoned
                std::vector<uint64_t> outer;
                foreach(hs, [&](sv_index_type i) {
                  outer.push_back(i);
                  try {
                    std::size_t n = 0;
                    foreach(hs, [&](sv_index_type) {
                      if(n++ == stop) throw Stop();
                    });
                  } catch(Stop const&) {
                  }
                });
                MC_CHECK(outer == ref, "outer enumeration around abandoned inner ones: ", head(outer));
                cx.trans(3);
                cx.validated(2);
              }
              cx.state(hash(layout(set)));
            });
  });
}
// Functor value categories: the functor is taken by forwarding reference and
// has to be called on one and the same object
FAMILY(functors) {
  cx.bound("stateful functors passed as lvalue and as temporary, dense and sparse spaces");
  struct Acc {
    std::vector<uint64_t>* out;
    uint64_t n = 0;
    void operator()(sv_index_type i) { out->push_back(i * 1000 + n++); }
  };
  mc::words(4, 1, 3, [&](std::vector<int> const& w) {
    cx.test([&] { return mc::vec_str(w); },
            [&] {
              std::vector<int> d;
              for(int i : w)
                d.push_back(i + 1);
              auto set = user_set(d);
              HS hs = build(set);
              auto ref = states(layout(set));
              std::vector<uint64_t> expect, got, got2;
              for(std::size_t k = 0; k < ref.size(); ++k)
                expect.push_back(ref[k] * 1000 + k);
              Acc a{&got};
              foreach(hs, a);
              MC_CHECK(got == expect && a.n == ref.size(), "functor passed as lvalue");
              foreach(hs, Acc{&got2});
              MC_CHECK(got2 == expect, "functor passed as temporary");
              cx.trans(2);
              cx.validated(2);
              cx.state(hash(layout(set)));
            });
  });
}

// --- huge spaces: the first states, by abandoning the enumeration ----------------------
FAMILY(huge) {
  int K = 300;
  cx.bound("huge sparse and dense spaces (up to 63 bits, products of dimensions around multiples of 2^31, 2^32): first 300 visited states");
  std::vector<std::vector<uint64_t>> dims;
  for(int b = 20; b <= 60; ++b) {
    uint64_t p = uint64_t(1) << b;
    dims.push_back({p, 3});
    dims.push_back({3, p});
    dims.push_back({p, 3, 2});
    dims.push_back({3, p, 2});
    dims.push_back({3, p / 2, 3});
    dims.push_back({3, 5, p / 4});
    dims.push_back({p - 1, 2});
    dims.push_back({2, p + 1});
    dims.push_back({5, p - 1});
    dims.push_back({3, 3, p - 1});
    dims.push_back({p});
    dims.push_back({p, 2});
    dims.push_back({uint64_t(1) << (b / 2), uint64_t(1) << (b - b / 2)});
    dims.push_back({3, (uint64_t(1) << (b / 2)) + 1, (uint64_t(1) << (b - b / 2 - 1)) - 1});
  }
  // dimensions whose product is a small number modulo 2^32
  dims.push_back({3, 1431655766, 4});
  dims.push_back({65535, 65537, 3});
  dims.push_back({641, 6700417, 5});
  dims.push_back({3, 1u << 31});
  dims.push_back({6, 715827883});
  for(auto const& d : dims) {
    std::vector<ES> set;
    for(std::size_t i = 0; i < d.size(); ++i)
      set.push_back({1, d[i], int(i)});
    if(layout(set).bits > 63) continue;
    cx.test([&] { return set_str(set); },
            [&] {
              HS hs = build(set);
              Layout l = layout(set);
              std::vector<uint64_t> got;
              try {
                foreach(hs, [&](sv_index_type i) {
                  got.push_back(i);
                  if(int(got.size()) == K) throw Stop();
                });
              } catch(Stop const&) {
              }
              // successor by definition
              std::vector<uint64_t> ref;
              std::vector<uint64_t> digit(d.size(), 0);
              for(int k = 0; k < K; ++k) {
                uint64_t s = 0;
                for(std::size_t i = 0; i < d.size(); ++i)
                  s |= digit[i] << l.range[i].first;
                ref.push_back(s);
                std::size_t i = 0;
                for(; i < d.size(); ++i) {
                  if(++digit[i] < d[i]) break;
                  digit[i] = 0;
                }
                if(i == d.size()) break;
              }
              if(got != ref) mc::fail("visited " + head(got) + ", expected " + head(ref));
              cx.trans();
              cx.validated();
              cx.state(hash(l));
            });
  }
}
