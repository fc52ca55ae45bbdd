// C20: operators acting on any combination of source and destination types
#pragma once
#include "fixtures.hpp"
static Op F(int d, int i) { return {0, d, 2, i}; }
static std::vector<Sum> const& pool() {
  static std::vector<Sum> p{{{2, {}}},
                            {{1, {F(1, 0), F(0, 1)}}, {-1, {F(1, 1), F(0, 0)}}, {0.5, {F(1, 0), F(0, 0)}}},
                            {{1, {F(1, 0)}}, {3, {F(0, 1)}}, {-2, {F(1, 0), F(1, 1)}}}};
  return p;
}
static std::vector<ES> const set{{0, 2, 0}, {0, 2, 1}};
template <typename S> static expression<S, int> make_sum(Sum const& s) {
  expression<S, int> e;
  for(auto const& t : s)
    e += S(t.first.real()) * to_expr<S>(t.second);
  return e;
}
template <typename A> static A amp(int k);
template <> double amp<double>(int k) { return k == 0 ? 0 : k == 1 ? 1 : -2.5; }
template <> cd amp<cd>(int k) { return k == 0 ? cd(0) : k == 1 ? cd(1, -1) : cd(0, 2); }
template <typename Src> struct SrcOf {
  template <typename Dst> struct G {
    static void run(mc::Ctx& cx) {
      using A = typename Src::A;
      using D = typename Dst::A;
      for(std::size_t o = 0; o < pool().size(); ++o)
        mc::tuples(std::vector<int>(N, 3), [&](std::vector<int> const& t) {
          cx.test([&] { return mc::str(Src::name(), "<", typeid(A).name(), "> -> ", Dst::name(), "<", typeid(D).name(), "> operator ", o, " on ", mc::vec_str(t)); },
                  [&] {
                    HS hs = build(set);
                    Layout l = layout(set);
                    auto op = make_loperator(make_sum<double>(pool()[o]), hs);
                    std::vector<cd> ref(N, 0);
                    Src src;
                    src.with([&](auto& sv) {
                      for(int i = 0; i < N; ++i) {
                        A a = amp<A>(t[i]);
                        update_add_element(sv, i, a);
                        for(auto const& p : column(l, pool()[o], i))
                          ref[p.first] += p.second * cd(a);
                      }
                    });
                    Dst dst;
                    auto verify = [&](char const* how) {
                      dst.with_const([&](auto const& d) {
                        for(int i = 0; i < N; ++i)
                          MC_CHECK(mc::close(cd(get_element(d, i)), ref[i]), how, ": element ", i, " = ", cd(get_element(d, i)), " expected ", ref[i]);
                      });
                      dst.check();
                      src.with_const([&](auto const& s) {
                        for(int i = 0; i < N; ++i)
                          MC_CHECK(cd(get_element(s, i)) == cd(amp<A>(t[i])), how, ": source element ", i, " changed");
                      });
                      src.check();
                    };
                    dst.with([&](auto& d) {
                      for(int i = 0; i < N; i += 2)
                        update_add_element(d, i, D(9));
                      src.with([&](auto& s) { op(s, d); });
                    });
                    verify("in place");
                    dst.with([&](auto& d) {
                      update_add_element(d, 3, D(4));
                      src.with_const([&](auto const& s) { op(s, d); });
                    });
                    verify("in place from const");
                    cx.trans(2);
                    cx.validated();
                    uint64_t h = mc::hcomb(mc::hstr(Src::name()), mc::hstr(Dst::name()));
                    for(auto const& x : ref)
                      h = mc::hcomb(h, mc::hcomb(mc::hdbl(x.real()), mc::hdbl(x.imag())));
                    cx.state(h);
                  });
        });
    }
  };
};
