// C03: every form of expression arithmetic equals polynomial arithmetic
#include "gauss.hpp"
#include "refpoly.hpp"
using namespace libcommute;
using namespace ref;
using CD = std::complex<double>;

namespace ref {
template <> inline Zi from_c<Zi>(C c) { return Zi(long(c.real()), long(c.imag())); }
} // namespace ref

static std::string monomial_word(monomial<int> const& m) { return word_str(decode(m, int_site())); }

// straight into the container: independent of the operators under test
template <typename S> static expression<S, int> raw(RPoly const& p) {
  expression<S, int> e;
  for(auto const& t : p) {
    std::vector<std::shared_ptr<const generator<int>>> gens;
    for(auto const& g : t.first)
      gens.push_back(make_gen(g));
    e.get_monomials().emplace(monomial<int>(gens), from_c<S>(t.second));
  }
  return e;
}

template <typename S> struct is_int_like : std::is_integral<S> {};
template <> struct is_int_like<Zi> : std::true_type {};
template <typename S> struct is_cplx : std::false_type {};
template <> struct is_cplx<CD> : std::true_type {};
template <> struct is_cplx<Zi> : std::true_type {};

// Pool of polynomials: 0 and all with one or two terms from 'mons' x 'coefs'
static std::vector<RPoly> pool(std::vector<std::vector<G>> const& mons, std::vector<C> const& coefs) {
  std::vector<RPoly> p{{}};
  for(std::size_t i = 0; i < mons.size(); ++i)
    for(C c : coefs)
      p.push_back(rword(mons[i], c));
  for(std::size_t i = 0; i < mons.size(); ++i)
    for(std::size_t j = i + 1; j < mons.size(); ++j)
      for(C c : coefs)
        for(C d : coefs)
          p.push_back(rsum(rword(mons[i], c), rword(mons[j], d)));
  return p;
}

template <typename S, typename T> static void same_type(expression<S, int> const&, T const*) {
  static_assert(std::is_same<S, T>::value, "result scalar type");
}

template <typename S1, typename S2> static void check_pair(mc::Ctx& cx, RPoly const& a, RPoly const& b) {
  auto e1 = raw<S1>(a);
  auto e2 = raw<S2>(b);
  RPoly s = rsum(a, b), d = rsum(a, b, -1), m = rmul(a, b);
  cx.state(mc::hcomb(hash_r(s), hash_r(m)));
  check_equal(e1 + e2, s, "a + b");
  check_equal(e1 - e2, d, "a - b");
  check_equal(-(e2 - e1), d, "-(b - a)");
  check_equal(e1 * e2, m, "a * b");
  check_equal(-e1, rscale(a, -1), "-a");
  cx.trans(6);
  if constexpr(std::is_constructible<S1, S2>::value) {
    auto t = e1;
    t += e2;
    check_equal(t, s, "a += b");
    t -= e2;
    check_equal(t, a, "a += b; a -= b");
    t -= e2;
    check_equal(t, d, "a -= b");
    t = e1;
    t *= e2;
    check_equal(t, m, "a *= b");
    t = e2; // converting assignment over old contents
    check_equal(t, b, "a = b");
    expression<S1, int> t2(e2);
    check_equal(t2, b, "A(b)");
    expression<S1, int> t3(e1);
    t3 = std::move(e2);
    check_equal(t3, b, "a = move(b)");
    MC_CHECK(t3 == t2 && !(t3 != t2), "equal polynomials compare unequal");
    if(a != b) MC_CHECK(e1 != t2 && !(e1 == t2), "different polynomials compare equal");
    cx.trans(7);
  }
  check_equal(e1, a, "operand a");
  cx.validated(13);
}

static std::vector<std::vector<G>> mons_all() {
  return {{}, {F(1, 0)}, {F(0, 0)}, {F(1, 0), F(0, 0)}, {B(1, 0)}, {B(0, 0)}, {Sg(0, 3, 0)}, {Sg(1, 3, 0)}, {F(1, 1), F(0, 0)}};
}

template <typename S1, typename S2> static void pairs(mc::Ctx& cx, std::vector<RPoly> const& P, std::vector<RPoly> const& Q) {
  cx.bound(mc::str("all ordered pairs of ", P.size(), " x ", Q.size(), " polynomials, all operator forms"));
  for(auto const& a : P)
    for(auto const& b : Q)
      cx.test([&] { return "a = " + rstr(a) + ", b = " + rstr(b); }, [&] { check_pair<S1, S2>(cx, a, b); });
}

FAMILY(pairs_double) {
  auto P = pool(mons_all(), cx.thorough() ? std::vector<C>{1, -1, 2} : std::vector<C>{1, -1});
  pairs<double, double>(cx, P, P);
}
FAMILY(pairs_complex) {
  auto m = mons_all();
  m.resize(cx.pick(4, 7));
  auto P = pool(m, {1, -1, C(0, 1), C(0.5, -1)});
  pairs<CD, CD>(cx, P, P);
}
FAMILY(pairs_mixed_real_complex) {
  auto m = mons_all();
  m.resize(cx.pick(5, 7));
  auto P = pool(m, {1, -1});
  auto Q = pool(m, {1, -1, C(0, 1)});
  pairs<double, CD>(cx, P, Q);
  pairs<CD, double>(cx, Q, P);
}
FAMILY(pairs_int) {
  auto m = mons_all();
  m.resize(cx.pick(6, 9));
  auto P = pool(m, {1, -1, 2});
  pairs<int, int>(cx, P, P);
}
FAMILY(pairs_mixed_int_double) {
  auto m = mons_all();
  m.resize(cx.pick(5, 9));
  auto P = pool(m, {1, -1});
  pairs<int, double>(cx, P, P);
  pairs<double, int>(cx, P, P);
  pairs<long, int>(cx, P, P);
  auto Q = pool(m, {0.5, -1});
  pairs<double, float>(cx, P, Q);
}
FAMILY(pairs_custom_scalar) {
  auto m = mons_all();
  m.resize(cx.pick(5, 7));
  auto P = pool(m, {1, -1});
  auto Q = pool(m, {1, -1, C(0, 1)});
  pairs<Zi, Zi>(cx, Q, Q);
  pairs<int, Zi>(cx, P, Q);
  pairs<Zi, int>(cx, Q, P);
}

// --- scalar forms ----------------------------------------------------------------
template <typename S, typename T> static void check_scalar(mc::Ctx& cx, RPoly const& a, C sc) {
  auto e = raw<S>(a);
  T s = from_c<T>(sc);
  RPoly plus = rsum(a, rconst(sc)), minus = rsum(a, rconst(sc), -1), rminus = rsum(rconst(sc), a, -1), mul = rscale(a, sc);
  cx.state(mc::hcomb(hash_r(plus), hash_r(mul)));
  check_equal(e + s, plus, "a + s");
  check_equal(s + e, plus, "s + a");
  check_equal(e - s, minus, "a - s");
  check_equal(s - e, rminus, "s - a");
  check_equal(e * s, mul, "a * s");
  check_equal(s * e, mul, "s * a");
  check_equal(e, a, "operand");
  if constexpr(std::is_constructible<S, T>::value) {
    auto t = e;
    t += s;
    check_equal(t, plus, "a += s");
    t -= s;
    check_equal(t, a, "a += s; a -= s");
    t -= s;
    check_equal(t, minus, "a -= s");
    t = e;
    t *= s;
    check_equal(t, mul, "a *= s");
    expression<S, int> c(s);
    check_equal(c, rconst(sc), "E(s)");
  }
  cx.trans(11);
  cx.validated(11);
}
template <typename S, typename T> static void scalars(mc::Ctx& cx, std::vector<RPoly> const& P, std::vector<C> const& V) {
  cx.bound(mc::str("all prefix/postfix/compound scalar forms, ", P.size(), " polynomials x ", V.size(), " scalars"));
  for(auto const& a : P)
    for(C s : V)
      cx.test([&] { return mc::str("a = ", rstr(a), ", s = ", s); }, [&] { check_scalar<S, T>(cx, a, s); });
}
FAMILY(scalar_forms) {
  auto P = pool(mons_all(), {1, -1, 2});
  auto PC = pool(mons_all(), {1, -1, C(0, 1), C(2, -1)});
  std::vector<C> I = {0, 1, -1, 2, -2, 3};
  std::vector<C> R = {0, 1, -1, 2, -2, 0.5, -0.25};
  std::vector<C> Z = {0, 1, -1, 2, -2, C(0, 1), C(0, -1), C(1, 1), C(-2, 1)};
  scalars<double, double>(cx, P, R);
  scalars<double, int>(cx, P, I);
  scalars<double, float>(cx, P, R);
  scalars<int, int>(cx, P, I);
  scalars<int, double>(cx, P, I);
  scalars<long, int>(cx, P, I);
  scalars<double, CD>(cx, P, Z);
  scalars<CD, CD>(cx, PC, Z);
  scalars<CD, double>(cx, PC, R);
  scalars<Zi, Zi>(cx, PC, Z);
  scalars<Zi, int>(cx, PC, I);
  scalars<int, Zi>(cx, P, Z);
}

// --- histories -------------------------------------------------------------------
template <typename S> struct Machine {
  expression<S, int> e;
  RPoly r;
};
template <typename S> struct Op {
  std::string name;
  std::function<void(Machine<S>&)> f;
};
template <typename S> static std::vector<Op<S>> ops(std::vector<std::pair<std::string, RPoly>> const& xs, std::vector<C> const& ss) {
  std::vector<Op<S>> o;
  for(auto const& nx : xs) {
    RPoly x = nx.second;
    std::string n = nx.first;
    auto ex = raw<S>(x);
    o.push_back({"e+=" + n, [=](Machine<S>& m) { m.e += ex, m.r = rsum(m.r, x); }});
    o.push_back({"e-=" + n, [=](Machine<S>& m) { m.e -= ex, m.r = rsum(m.r, x, -1); }});
    o.push_back({"e*=" + n, [=](Machine<S>& m) { m.e *= ex, m.r = rmul(m.r, x); }});
    o.push_back({"e=" + n + "*e", [=](Machine<S>& m) { m.e = ex * m.e, m.r = rmul(x, m.r); }});
    o.push_back({"e=" + n + "-e", [=](Machine<S>& m) { m.e = ex - m.e, m.r = rsum(x, m.r, -1); }});
  }
  for(C c : ss) {
    S s = from_c<S>(c);
    std::string n = mc::str(c);
    o.push_back({"e+=" + n, [=](Machine<S>& m) { m.e += s, m.r = rsum(m.r, rconst(c)); }});
    o.push_back({"e-=" + n, [=](Machine<S>& m) { m.e -= s, m.r = rsum(m.r, rconst(c), -1); }});
    o.push_back({"e*=" + n, [=](Machine<S>& m) { m.e *= s, m.r = rscale(m.r, c); }});
    o.push_back({"e=" + n + "-e", [=](Machine<S>& m) { m.e = s - m.e, m.r = rsum(rconst(c), m.r, -1); }});
    o.push_back({"e=" + n + "*e", [=](Machine<S>& m) { m.e = s * m.e, m.r = rscale(m.r, c); }});
    o.push_back({"e=e+" + n, [=](Machine<S>& m) { m.e = m.e + s, m.r = rsum(m.r, rconst(c)); }});
  }
  o.push_back({"e=-e", [](Machine<S>& m) { m.e = -m.e, m.r = rscale(m.r, -1); }});
  o.push_back({"clear", [](Machine<S>& m) { m.e.clear(), m.r.clear(); }});
  return o;
}
template <typename S> static void dfs(mc::Ctx& cx, std::vector<Op<S>> const& O, Machine<S> const& m, int depth, std::string const& hist, std::map<uint64_t, int>& seen) {
  if(depth == 0 || m.r.size() > 24) return;
  uint64_t h = hash_r(m.r);
  auto it = seen.find(h);
  if(it != seen.end() && it->second >= depth) return; // already explored from here at least this deep
  seen[h] = depth;
  cx.state(h);
  for(auto const& op : O) {
    Machine<S> n = m;
    op.f(n);
    cx.trans();
    check_equal(n.e, n.r, "after " + hist + op.name);
    cx.validated();
    dfs(cx, O, n, depth - 1, hist + op.name + "; ", seen);
  }
}
template <typename S> static void histories(mc::Ctx& cx, std::vector<Op<S>> const& O, int depth) {
  cx.bound(mc::str("all histories of ", depth, " operations over ", O.size(), " operations (two-operation prefixes are cases; identical states beyond are explored once per case)"));
  int n = int(O.size());
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < n; ++j)
      cx.test([&] { return O[i].name + "; " + O[j].name; },
              [&] {
                Machine<S> m;
                std::string hist;
                for(int k : {i, j}) {
                  O[k].f(m);
                  hist += O[k].name + "; ";
                  check_equal(m.e, m.r, "after " + hist);
                }
                std::map<uint64_t, int> seen;
                dfs(cx, O, m, depth - 2, hist, seen);
              });
}
FAMILY(histories_double) {
  std::vector<std::pair<std::string, RPoly>> xs = {
      {"c", rword({F(0, 0)})}, {"(1-n)", rsum(rconst(1), rword({F(1, 0), F(0, 0)}), -1)}, {"(C+a+2S+)", rsum(rword({F(1, 0), B(0, 0)}), rword({Sg(0, 2, 0)}, 2))}, {"(A+ + S-)", rsum(rword({B(1, 0)}), rword({Sg(1, 2, 0)}))}};
  histories<double>(cx, ops<double>(xs, {1, -1, 2}), cx.pick(4, 5));
}
FAMILY(histories_complex) {
  std::vector<std::pair<std::string, RPoly>> xs = {{"c", rword({F(0, 0)})}, {"(1-i C+)", rsum(rconst(1), rword({F(1, 0)}, C(0, -1)))}, {"(i a + A+ a)", rsum(rword({B(0, 0)}, C(0, 1)), rword({B(1, 0), B(0, 0)}))}};
  histories<CD>(cx, ops<CD>(xs, {1, C(0, 1), -2}), cx.pick(4, 5));
}
FAMILY(histories_custom) {
  std::vector<std::pair<std::string, RPoly>> xs = {{"c", rword({F(0, 0)})}, {"(1-i C+)", rsum(rconst(1), rword({F(1, 0)}, C(0, -1)))}, {"(i a + A+ a)", rsum(rword({B(0, 0)}, C(0, 1)), rword({B(1, 0), B(0, 0)}))}};
  histories<Zi>(cx, ops<Zi>(xs, {1, C(0, 1), -2}), cx.pick(4, 5));
}
// --- many terms: every way two sorted sets of monomials can interleave ---------------
template <typename S1, typename S2> static void check_linear(mc::Ctx& cx, RPoly const& a, RPoly const& b) {
  auto e1 = raw<S1>(a);
  auto e2 = raw<S2>(b);
  RPoly s = rsum(a, b), d = rsum(a, b, -1);
  cx.state(mc::hcomb(hash_r(s), hash_r(d)));
  check_equal(e1 + e2, s, "a + b");
  check_equal(e1 - e2, d, "a - b");
  if constexpr(std::is_constructible<S1, S2>::value) {
    auto t = e1;
    t += e2;
    check_equal(t, s, "a += b");
    t = e1;
    t -= e2;
    check_equal(t, d, "a -= b");
    t += e2;
    check_equal(t, a, "a -= b; a += b");
    cx.trans(3);
  }
  check_equal(e1, a, "operand a");
  check_equal(e2, b, "operand b");
  cx.trans(2);
  cx.validated(2);
}
FAMILY(interleavings) {
  int n = cx.pick(6, 7);
  cx.bound(mc::str("all pairs of polynomials over all subsets of ", n, " monomials, equal, opposite and unrelated coefficients, 8 combinations of scalar types"));
  std::vector<std::vector<G>> mons{{}, {F(1, 0)}, {F(0, 0)}, {B(1, 0)}, {F(1, 0), F(0, 0)}, {F(1, 1), F(0, 0)}, {B(1, 0), Sg(0, 3, 0)}};
  for(int x = 0; x < 1 << n; ++x)
    for(int y = 0; y < 1 << n; ++y)
      for(int c = 0; c < 3; ++c)
        cx.test([&] { return mc::str("subsets ", x, " and ", y, ", coefficients ", c); },
                [&] {
                  RPoly a, b, bi;
                  for(int k = 0; k < n; ++k) {
                    if(x >> k & 1) a = rsum(a, rword(mons[k], C(k + 1)));
                    C v = c == 0 ? C(k + 1) : c == 1 ? C(-k - 1) : C(k % 2 ? k + 1 : 2 * k + 3);
                    if(y >> k & 1) b = rsum(b, rword(mons[k], v)), bi = rsum(bi, rword(mons[k], v * C(0, c == 2 ? 1 : 0) + C(c == 2 ? 0 : 1) * v));
                  }
                  check_linear<double, double>(cx, a, b);
                  check_linear<int, int>(cx, a, b);
                  check_linear<int, double>(cx, a, b);
                  check_linear<double, int>(cx, a, b);
                  check_linear<CD, CD>(cx, a, bi);
                  check_linear<double, CD>(cx, a, bi);
                  check_linear<CD, double>(cx, a, b);
                  check_linear<int, Zi>(cx, a, bi);
                  check_linear<Zi, int>(cx, a, b);
                });
}
// --- several terms with recurring coefficients ----------------------------------------
template <typename S, typename T> static void check_many(mc::Ctx& cx, RPoly const& a, std::vector<C> const& V) {
  for(C s : V)
    check_scalar<S, T>(cx, a, s);
}
FAMILY(recurring_coefficients) {
  int n = cx.pick(5, 6);
  cx.bound(mc::str("all polynomials over ", n, " monomials (the unit included) with coefficients 0, 1, 2, -1: scalar forms with 10 combinations of scalar types, products with a binomial from either side"));
  std::vector<std::vector<G>> mons{{}, {F(1, 0)}, {B(1, 0)}, {F(1, 0), F(0, 0)}, {F(1, 1), F(0, 0)}, {B(1, 0), Sg(0, 3, 0)}};
  std::vector<C> cs{0, 1, 2, -1};
  mc::words(4, n, n, [&](std::vector<int> const& w) {
    cx.test([&] { return "coefficients " + mc::vec_str(w); },
            [&] {
              RPoly a;
              for(int k = 0; k < n; ++k)
                if(w[k]) a = rsum(a, rword(mons[k], cs[w[k]]));
              check_many<double, double>(cx, a, {2, -1, 0});
              check_many<double, int>(cx, a, {1, -2});
              check_many<double, float>(cx, a, {0.5});
              check_many<int, int>(cx, a, {2, -1});
              check_many<int, double>(cx, a, {-2, 0});
              check_many<long, int>(cx, a, {3});
              check_many<double, CD>(cx, a, {C(0, 1), C(-2, 1)});
              check_many<CD, double>(cx, rscale(a, C(0, 1)), {-1, 0.5});
              check_many<CD, CD>(cx, a, {C(0, 2)});
              check_many<int, Zi>(cx, a, {C(1, 1)});
              RPoly b = rsum(rword({F(0, 0)}, 2), rword({B(0, 0)}, -1));
              check_pair<double, double>(cx, a, b);
              check_pair<int, double>(cx, b, a);
              check_pair<CD, double>(cx, a, b);
            });
  });
}
// --- polynomials of many terms ---------------------------------------------------------
static RPoly many_terms(int n, int step, C c0, C c1) {
  RPoly p;
  for(int i = 0; i < n; ++i) {
    int k = i * step;
    std::vector<G> w;
    switch(k % 5) {
    case 0: w = {F(1, k / 5)}; break;
    case 1: w = {F(1, k / 5), F(0, k / 7)}; break;
    case 2: w = {B(1, k / 5), B(0, k / 3)}; break;
    case 3: w = {Sg(k / 5 % 3, 3, k / 5)}; break;
    default: w = {F(0, k / 5), B(1, 0), Sg(2, 2, k % 11)};
    }
    radd(p, w, c0 + double(i % 13) * c1);
  }
  return p;
}
FAMILY(many_terms_linear) {
  std::vector<int> ns = cx.thorough() ? std::vector<int>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000} : std::vector<int>{8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 300};
  cx.bound(mc::str("polynomials of n terms, n from ", mc::vec_str(ns), ": sums and differences with polynomials sharing all, every second, every third or no monomial, with cancellation of all and of all but the shared terms, scalar forms, products with a monomial, unary minus; 6 combinations of scalar types"));
  for(int n : ns)
    for(int m : ns) {
      if(!cx.thorough() && m != n && m != ns[0] && n != ns[0]) continue;
      for(int step = 1; step <= 3; ++step)
        for(int sgn = -1; sgn <= 1; sgn += 2)
          cx.test([&] { return mc::str(n, " and ", m, " terms, step ", step, " sign ", sgn); },
                  [&] {
                    RPoly a = many_terms(n, 1, 2, 1), b = many_terms(m, step, 2.0 * sgn, step == 1 ? 1.0 * sgn : 3);
                    check_linear<double, double>(cx, a, b);
                    check_linear<int, int>(cx, a, b);
                    check_linear<double, int>(cx, a, b);
                    check_linear<int, double>(cx, b, a);
                    check_linear<CD, double>(cx, rscale(a, C(0, 1)), b);
                    check_linear<double, CD>(cx, a, rscale(b, C(1, -1)));
                    if(m != ns[0]) return;
                    check_scalar<double, double>(cx, a, 3);
                    check_scalar<double, double>(cx, a, 0);
                    check_scalar<double, CD>(cx, a, C(0, 2));
                    check_scalar<int, double>(cx, a, -1);
                    auto e = raw<double>(a);
                    check_equal(-e, rscale(a, -1), "-a");
                    // cut down to k terms one by one, then rebuilt
                    if(n > 70) return;
                    RPoly r = a;
                    for(auto const& t : a) {
                      e -= raw<double>(RPoly{t});
                      r.erase(t.first);
                      check_equal(e, r, "after subtracting terms one by one");
                    }
                    for(auto it = a.rbegin(); it != a.rend(); ++it) {
                      e += raw<double>(RPoly{*it});
                      r.insert(*it);
                      check_equal(e, r, "after adding terms one by one");
                    }
                  });
    }
}
FAMILY(many_terms_product) {
  std::vector<int> ns = cx.thorough() ? std::vector<int>{5, 8, 9, 16, 17, 24, 33, 40} : std::vector<int>{5, 9, 17, 20};
  cx.bound(mc::str("products of sums over n and m sites, n, m from ", mc::vec_str(ns), ", of creation and annihilation operators, densities, bosons and spins, in both orders"));
  for(int n : ns)
    for(int m : ns)
      for(int ka = 0; ka < 5; ++ka)
        for(int kb = 0; kb < 5; ++kb)
          cx.test([&] { return mc::str(n, " terms of kind ", ka, " times ", m, " of kind ", kb); },
                  [&] {
                    auto make = [](int k, int n) {
                      RPoly p;
                      for(int i = 0; i < n; ++i) {
                        std::vector<G> w;
                        if(k == 0) w = {F(1, i)};
                        if(k == 1) w = {F(0, i)};
                        if(k == 2) w = {F(1, i), F(0, i)};
                        if(k == 3) w = {B(i % 2, i / 2)};
                        if(k == 4) w = {Sg(i % 3, 2, i / 3)};
                        radd(p, w, C(i % 4 + 1));
                      }
                      return p;
                    };
                    RPoly a = make(ka, n), b = make(kb, m), r = rmul(a, b);
                    auto A = raw<double>(a), B_ = raw<double>(b);
                    check_equal(A * B_, r, "a * b");
                    auto t = A;
                    t *= B_;
                    check_equal(t, r, "a *= b");
                    auto I = raw<CD>(rscale(a, C(0, 1)));
                    check_equal(I * B_, rscale(r, C(0, 1)), "i*a * b");
                    cx.trans(3);
                    cx.validated(3);
                    cx.state(hash_r(r));
                  });
}
