#pragma once
// C11: factory functions build exactly the documented operators
#include "mc.hpp"
#include <libcommute/expression/factories_dyn.hpp>
#include <libcommute/libcommute.hpp>
#include <libcommute/loperator/loperator.hpp>
using namespace libcommute;
using CD = std::complex<double>;
namespace st = libcommute::static_indices;
namespace dy = libcommute::dynamic_indices;

// description of a generator: algebra, component (f/b: 1 dagger; spin: 0 + 1 - 2 z), multiplicity
struct D {
  int alg, comp, mult;
};
template <typename... I> static D describe(generator<I...> const& g) {
  if(auto* f = dynamic_cast<generator_fermion<I...> const*>(&g)) {
    MC_CHECK(g.algebra_id() == fermion, "algebra id");
    return {0, f->dagger(), 0};
  }
  if(auto* b = dynamic_cast<generator_boson<I...> const*>(&g)) {
    MC_CHECK(g.algebra_id() == boson, "algebra id");
    return {1, b->dagger(), 0};
  }
  auto* s = dynamic_cast<generator_spin<I...> const*>(&g);
  MC_CHECK(s != nullptr, "unknown kind of generator");
  MC_CHECK(g.algebra_id() == spin, "algebra id");
  MC_CHECK(s->spin() == (s->multiplicity() - 1) / 2.0, "spin() and multiplicity() disagree");
  return {2, s->component() == plus ? 0 : (s->component() == minus ? 1 : 2), s->multiplicity()};
}
template <typename S> using Terms = std::vector<std::pair<S, std::vector<D>>>;
template <typename S, typename Idx, typename... I>
static void expect(mc::Ctx& cx, expression<S, I...> const& e, Terms<S> const& t, Idx const& idx, std::string const& what) {
  cx.trans();
  cx.validated();
  MC_CHECK(e.size() == t.size(), what, ": number of terms");
  std::vector<bool> used(t.size());
  for(auto const& m : e.get_monomials()) {
    bool found = false;
    for(std::size_t k = 0; k < t.size() && !found; ++k) {
      if(used[k] || t[k].second.size() != m.first.size()) continue;
      bool same = true;
      for(std::size_t i = 0; i < m.first.size(); ++i) {
        D a = describe(m.first[i]), b = t[k].second[i];
        same = same && a.alg == b.alg && a.comp == b.comp && a.mult == b.mult;
      }
      if(same) {
        MC_CHECK(m.second == t[k].first, what, ": coefficient");
        used[k] = found = true;
      }
    }
    MC_CHECK(found, what, ": unexpected monomial ", m.first);
    for(auto const& g : m.first)
      MC_CHECK(g.indices() == idx, what, ": wrong indices in ", g);
  }
  cx.state(mc::hstr(what + mc::str(e)));
}

template <typename T> struct TN;
template <> struct TN<double> { static constexpr char const* n = "double"; };
template <> struct TN<CD> { static constexpr char const* n = "complex"; };
template <> struct TN<int> { static constexpr char const* n = "int"; };
template <> struct TN<float> { static constexpr char const* n = "float"; };

// Every factory of one index world. 'NS' is a namespace, idx the expected
// index tuple, i... the arguments.
#define WORLD(NAME, NS)                                                                                                          \
  struct NAME {                                                                                                                  \
    static constexpr char const* name = #NAME;                                                                                   \
    template <typename S, typename Idx, typename... A> static void basic(mc::Ctx& cx, std::string const& w, Idx const& idx, A const&... i) { \
      S one(1);                                                                                                                  \
      expect<S>(cx, NS::c<S>(i...), {{one, {{0, 0, 0}}}}, idx, w + " c");                                                        \
      expect<S>(cx, NS::c_dag<S>(i...), {{one, {{0, 1, 0}}}}, idx, w + " c_dag");                                                \
      expect<S>(cx, NS::n<S>(i...), {{one, {{0, 1, 0}, {0, 0, 0}}}}, idx, w + " n");                                             \
      expect<S>(cx, NS::a<S>(i...), {{one, {{1, 0, 0}}}}, idx, w + " a");                                                        \
      expect<S>(cx, NS::a_dag<S>(i...), {{one, {{1, 1, 0}}}}, idx, w + " a_dag");                                                \
      expect<S>(cx, NS::S_p<S>(i...), {{one, {{2, 0, 2}}}}, idx, w + " S_p");                                                    \
      expect<S>(cx, NS::S_m<S>(i...), {{one, {{2, 1, 2}}}}, idx, w + " S_m");                                                    \
      expect<S>(cx, NS::S_z<S>(i...), {{one, {{2, 2, 2}}}}, idx, w + " S_z");                                                    \
      mult<2, S>(cx, w, idx, i...);                                                                                              \
      mult<3, S>(cx, w, idx, i...);                                                                                              \
      mult<4, S>(cx, w, idx, i...);                                                                                              \
      mult<5, S>(cx, w, idx, i...);                                                                                              \
      mult<6, S>(cx, w, idx, i...);                                                                                              \
      mult<9, S>(cx, w, idx, i...);                                                                                              \
    }                                                                                                                            \
    template <int M, typename S, typename Idx, typename... A>                                                                    \
    static void mult(mc::Ctx& cx, std::string const& w, Idx const& idx, A const&... i) {                                         \
      S one(1);                                                                                                                  \
      std::string m = mc::str(w, " M=", M);                                                                                      \
      expect<S>(cx, NS::S_p<M, S>(i...), {{one, {{2, 0, M}}}}, idx, m + " S_p");                                                 \
      expect<S>(cx, NS::S_m<M, S>(i...), {{one, {{2, 1, M}}}}, idx, m + " S_m");                                                 \
      expect<S>(cx, NS::S_z<M, S>(i...), {{one, {{2, 2, M}}}}, idx, m + " S_z");                                                 \
      expect<CD>(cx, NS::S_x<M>(i...), {{0.5, {{2, 0, M}}}, {0.5, {{2, 1, M}}}}, idx, m + " S_x");                               \
      expect<CD>(cx, NS::S_y<M>(i...), {{CD(0, -0.5), {{2, 0, M}}}, {CD(0, 0.5), {{2, 1, M}}}}, idx, m + " S_y");                \
    }                                                                                                                            \
    template <typename Idx, typename... A> static void plain(mc::Ctx& cx, std::string const& w, Idx const& idx, A const&... i) { \
      expect<double>(cx, NS::c(i...), {{1, {{0, 0, 0}}}}, idx, w + " c");                                                        \
      expect<double>(cx, NS::c_dag(i...), {{1, {{0, 1, 0}}}}, idx, w + " c_dag");                                                \
      expect<double>(cx, NS::n(i...), {{1, {{0, 1, 0}, {0, 0, 0}}}}, idx, w + " n");                                             \
      expect<double>(cx, NS::a(i...), {{1, {{1, 0, 0}}}}, idx, w + " a");                                                        \
      expect<double>(cx, NS::a_dag(i...), {{1, {{1, 1, 0}}}}, idx, w + " a_dag");                                                \
      expect<double>(cx, NS::S_p(i...), {{1, {{2, 0, 2}}}}, idx, w + " S_p");                                                    \
      expect<double>(cx, NS::S_m(i...), {{1, {{2, 1, 2}}}}, idx, w + " S_m");                                                    \
      expect<double>(cx, NS::S_z(i...), {{1, {{2, 2, 2}}}}, idx, w + " S_z");                                                    \
      expect<CD>(cx, NS::S_x(i...), {{0.5, {{2, 0, 2}}}, {0.5, {{2, 1, 2}}}}, idx, w + " S_x");                                  \
      expect<CD>(cx, NS::S_y(i...), {{CD(0, -0.5), {{2, 0, 2}}}, {CD(0, 0.5), {{2, 1, 2}}}}, idx, w + " S_y");                   \
      /* products and combinations agree with each other */                                                                      \
      MC_CHECK(NS::n(i...) == NS::c_dag(i...) * NS::c(i...), w, " n = c_dag c");                                                 \
      MC_CHECK(NS::make_complex(NS::n(i...) + 2.0 * NS::a(i...) - 1.5) == CD(1) * NS::n(i...) + CD(2) * NS::a(i...) - CD(1.5), w, " make_complex"); \
      MC_CHECK(NS::S_x(i...) * CD(2) == NS::make_complex(NS::S_p(i...) + NS::S_m(i...)), w, " 2 S_x");                           \
      MC_CHECK(NS::S_y(i...) * CD(0, 2) == NS::make_complex(NS::S_p(i...) - NS::S_m(i...)), w, " 2i S_y");                       \
      MC_CHECK(NS::S_x(i...) + CD(0, 1) * NS::S_y(i...) == NS::make_complex(NS::S_p(i...)), w, " S_x + i S_y");                  \
      /* temporaries as arguments */                                                                                             \
      MC_CHECK(NS::n(A(i)...) == NS::n(i...) && NS::c(A(i)...) == NS::c(i...) && NS::c_dag(A(i)...) == NS::c_dag(i...), w, " temporaries (fermion)"); \
      MC_CHECK(NS::a(A(i)...) == NS::a(i...) && NS::a_dag(A(i)...) == NS::a_dag(i...), w, " temporaries (boson)");               \
      MC_CHECK(NS::S_p(A(i)...) == NS::S_p(i...) && NS::S_m(A(i)...) == NS::S_m(i...) && NS::S_z(A(i)...) == NS::S_z(i...), w, " temporaries (spin)"); \
      MC_CHECK(NS::S_x(A(i)...) == NS::S_x(i...) && NS::S_y(A(i)...) == NS::S_y(i...), w, " temporaries (complex spin)");        \
      MC_CHECK(NS::S_x<4>(A(i)...) == NS::S_x<4>(i...) && NS::S_y<3>(A(i)...) == NS::S_y<3>(i...), w, " temporaries (complex higher spin)"); \
    }                                                                                                                            \
  }

template <typename W, typename Idx, typename... A> static void all(mc::Ctx& cx, std::string const& what, Idx const& idx, A const&... i) {
  cx.test([&] { return std::string(W::name) + " " + what; },
          [&] {
            W::plain(cx, what, idx, i...);
            W::template basic<double>(cx, what + " double", idx, i...);
            W::template basic<CD>(cx, what + " complex", idx, i...);
            W::template basic<int>(cx, what + " int", idx, i...);
            W::template basic<float>(cx, what + " float", idx, i...);
          });
}

static std::vector<int> const INTS{-2147483647 - 1, -1, 0, 1, 2, 41, 2147483647};
static std::vector<std::string> const STRS{"", "a", "ab", "up", "a much longer index which does not fit into the small string buffer"};

