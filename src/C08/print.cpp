// C08: printing, iteration and transform expose exactly the stored polynomial
#include "gauss.hpp"
#include "refpoly.hpp"
#include <cctype>
using namespace libcommute;
using namespace ref;
using CD = std::complex<double>;
using dynamic_indices::dyn_indices;

// --- an independent parser of the documented notation ----------------------------
struct PG { // parsed generator
  int alg;  // FERMION/BOSON/SPIN or 100 + user id
  int comp;
  int mult;
  std::vector<std::string> ind;
  friend bool operator==(PG const& a, PG const& b) { return a.alg == b.alg && a.comp == b.comp && a.mult == b.mult && a.ind == b.ind; }
};
struct Parser {
  std::string s;
  std::size_t p = 0;
  bool end() const { return p >= s.size(); }
  char peek() const { return end() ? '\0' : s[p]; }
  bool eat(std::string const& t) {
    if(s.compare(p, t.size(), t) == 0) {
      p += t.size();
      return true;
    }
    return false;
  }
  void need(std::string const& t) {
    if(!eat(t)) mc::fail("cannot parse \"" + s + "\" at " + std::to_string(p) + ", expected \"" + t + "\"");
  }
  int integer() {
    std::size_t q = p;
    if(peek() == '-') ++p;
    while(std::isdigit(static_cast<unsigned char>(peek())))
      ++p;
    if(q == p) mc::fail("number expected in \"" + s + "\" at " + std::to_string(p));
    return std::stoi(s.substr(q, p - q));
  }
  double real() {
    char* e = nullptr;
    double x = std::strtod(s.c_str() + p, &e);
    if(e == s.c_str() + p) mc::fail("number expected in \"" + s + "\" at " + std::to_string(p));
    p = e - s.c_str();
    return x;
  }
  std::vector<std::string> indices() {
    std::vector<std::string> r;
    need("(");
    std::string cur;
    while(peek() != ')') {
      if(end()) mc::fail("unterminated index list in " + s);
      if(peek() == ',') {
        r.push_back(cur);
        cur.clear();
      } else
        cur += peek();
      ++p;
    }
    r.push_back(cur);
    ++p;
    return r;
  }
  PG gen() {
    PG g{};
    if(eat("C")) {
      g.alg = FERMION;
      g.comp = eat("+");
    } else if(eat("A")) {
      g.alg = BOSON;
      g.comp = eat("+");
    } else if(eat("S")) {
      g.alg = SPIN;
      g.mult = 2;
      if(std::isdigit(static_cast<unsigned char>(peek()))) {
        int n = integer();
        if(eat("/")) {
          need("2");
          if(n % 2 == 0) mc::fail("even numerator of a half-integer spin in " + s);
          g.mult = n + 1;
        } else
          g.mult = 2 * n + 1;
        if(g.mult == 2) mc::fail("spin 1/2 is printed without its spin, " + s);
      }
      if(eat("+")) g.comp = 0;
      else if(eat("-"))
        g.comp = 1;
      else {
        need("z");
        g.comp = 2;
      }
    } else {
      need("g^");
      g.alg = 100 + integer();
    }
    g.ind = indices();
    return g;
  }
  std::vector<PG> monomial() {
    std::vector<PG> w;
    while(!end() && peek() != ' ') {
      if(eat("[")) {
        PG g = gen();
        need("]^");
        int n = integer();
        if(n < 2) mc::fail("power below 2 printed in " + s);
        for(int i = 0; i < n; ++i)
          w.push_back(g);
      } else
        w.push_back(gen());
    }
    return w;
  }
  C coeff() {
    if(eat("(")) {
      double re = real();
      need(",");
      double im = real();
      need(")");
      return C(re, im);
    }
    if(eat("{")) {
      double re = real();
      need(",");
      double im = real();
      need("}");
      return C(re, im);
    }
    return real();
  }
  std::vector<std::pair<C, std::vector<PG>>> expr() {
    std::vector<std::pair<C, std::vector<PG>>> r;
    while(true) {
      C c = coeff();
      std::vector<PG> w;
      if(eat("*")) {
        w = monomial();
        if(w.empty()) mc::fail("'*' followed by nothing in " + s);
      }
      r.emplace_back(c, w);
      if(end()) break;
      need(" + ");
    }
    return r;
  }
};
static PG pg(G const& g) { return {g.alg, g.comp, g.alg == SPIN ? g.mult : 0, {std::to_string(g.site)}}; }
static std::vector<PG> pw(std::vector<G> const& w) {
  std::vector<PG> r;
  for(auto const& g : w)
    r.push_back(pg(g));
  return r;
}
template <typename T> static std::string print(T const& x, int prec = 0) {
  std::ostringstream os;
  if(prec) os.precision(prec);
  os << x;
  return os.str();
}

// --- monomials: every word, canonical or not -------------------------------------
FAMILY(a_monomials) {
  std::vector<G> alpha = {F(1, 0), F(0, 0), F(0, 1), B(1, 0), B(0, 12), Sg(0, 2, 0), Sg(1, 2, 0), Sg(2, 3, -1), Sg(0, 4, 0), Sg(1, 7, 0)};
  int len = cx.pick(4, 5);
  cx.bound(mc::str("all words of length 0..", len, " over ", word_str(alpha)));
  mc::words(int(alpha.size()), 0, len, [&](std::vector<int> const& q) {
    std::vector<G> w;
    for(int i : q)
      w.push_back(alpha[i]);
    cx.test([&] { return word_str(w); },
            [&] {
              std::vector<std::shared_ptr<const generator<int>>> gens;
              for(auto const& g : w)
                gens.push_back(make_gen(g));
              monomial<int> m(gens);
              std::string s = print(m);
              Parser ps{s};
              MC_CHECK(ps.monomial() == pw(w) && ps.end(), "\"", s, "\"");
              cx.state(mc::hstr(s));
              // iteration
              std::size_t n = w.size(), k = 0;
              for(auto const& g : m)
                MC_CHECK(&g == gens[k++].get(), "forward iteration");
              MC_CHECK(k == n && m.size() == n && m.empty() == (n == 0), "forward iteration count");
              for(auto it = m.rbegin(); it != m.rend(); ++it)
                MC_CHECK(&*it == gens[--k].get(), "backward iteration");
              MC_CHECK(k == 0, "backward iteration count");
              for(auto it = m.crbegin(); it != m.crend(); it++)
                ++k;
              MC_CHECK(k == n, "crbegin..crend");
              auto b = m.begin(), e = m.end();
              MC_CHECK(std::size_t(e - b) == n && m.cbegin() == b && m.cend() == e, "distance");
              for(std::size_t i = 0; i < n; ++i) {
                auto it = b + i, it2 = e - (n - i), it3 = b, it4 = i + b;
                it3 += i;
                MC_CHECK(it == it2 && it == it3 && it == it4 && !(it != it2), "iterator arithmetic");
                MC_CHECK(&*it == gens[i].get() && &m[i] == gens[i].get() && &b[i] == gens[i].get() && it.operator->() == gens[i], "element access");
                MC_CHECK(b <= it && it < e && e > it && it >= b && (i == 0) == !(b < it), "iterator ordering");
                auto it5 = e;
                it5 -= n - i;
                MC_CHECK(it5 == it, "-=");
                auto pre = it;
                auto post = pre++;
                MC_CHECK(post == it && pre == b + (i + 1), "post-increment");
                auto back = pre--;
                MC_CHECK(pre == it && back == b + (i + 1), "post-decrement");
                ++pre;
                --pre;
                MC_CHECK(pre == it, "pre-increment/decrement");
              }
              if(n >= 2) {
                auto x = b, y = b + (n - 1);
                swap(x, y);
                MC_CHECK(&*x == gens[n - 1].get() && &*y == gens[0].get(), "iterator swap");
                monomial<int> m2 = m;
                m2.swap_generators(0, n - 1);
                MC_CHECK(&m2[0] == gens[n - 1].get() && &m2[n - 1] == gens[0].get() && &m[0] == gens[0].get(), "swap_generators");
              }
              // concatenation of all splits
              for(std::size_t i = 0; i <= n; ++i) {
                auto l = std::make_pair(b, b + i), r = std::make_pair(b + i, e);
                MC_CHECK(concatenate(l, r) == m, "concatenate ranges");
                if(i < n) MC_CHECK(concatenate(l, m[i], std::make_pair(b + i + 1, e)) == m, "concatenate with generator");
                monomial<int> lm(std::vector<std::shared_ptr<const generator<int>>>(gens.begin(), gens.begin() + i));
                monomial<int> rm(std::vector<std::shared_ptr<const generator<int>>>(gens.begin() + i, gens.end()));
                MC_CHECK(concatenate(lm, rm) == m && concatenate(lm, r) == m, "concatenate monomials");
                lm.append(rm);
                MC_CHECK(lm == m, "append");
              }
              cx.trans(6 * n + 6);
              cx.validated(1);
            });
  });
}
// long powers and power groups split by other generators
FAMILY(b_powers) {
  std::vector<G> alpha = {B(1, 0), B(0, 0), Sg(2, 3, 0)};
  cx.bound("all run-length patterns r1,r2,r3,r4 in 0..12 (step 1,2,3,5,..) of alternating generators");
  std::vector<int> runs = {0, 1, 2, 3, 5, 9, 10, 11, 12};
  int nr = int(runs.size());
  mc::tuples({nr, nr, nr, 3}, [&](std::vector<int> const& q) {
    cx.test([&] { return mc::vec_str(q); },
            [&] {
              std::vector<G> w;
              for(int k = 0; k < 3; ++k)
                for(int i = 0; i < runs[q[k]]; ++i)
                  w.push_back(alpha[(k + q[3]) % 3]);
              std::vector<std::shared_ptr<const generator<int>>> gens;
              for(auto const& g : w)
                gens.push_back(make_gen(g));
              std::string s = print(monomial<int>(gens));
              Parser ps{s};
              MC_CHECK(ps.monomial() == pw(w) && ps.end(), "\"", s, "\"");
              // consecutive equal generators must be printed as one power
              std::size_t groups = 0, printed = 0;
              for(std::size_t i = 0; i < w.size(); ++i)
                if(i == 0 || !(w[i] == w[i - 1])) ++groups;
              for(char c : s)
                printed += (c == '(');
              MC_CHECK(printed == groups, "powers not grouped: ", s);
              cx.state(mc::hstr(s));
              cx.trans();
              cx.validated();
            });
  });
}

// --- generators over several index types ----------------------------------------------
template <typename... I> class gen_user : public generator<I...> {
  int id_;

public:
  template <typename... A> explicit gen_user(int id, A&&... a) : generator<I...>(std::forward<A>(a)...), id_(id) {}
  int algebra_id() const override { return id_; }
  var_number swap_with(generator<I...> const&, typename generator<I...>::linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
template <typename... I> static void gen_case(mc::Ctx& cx, std::vector<std::string> const& ind, I const&... x) {
  cx.test([&] { return mc::vec_str(ind); },
          [&] {
            std::vector<std::pair<std::shared_ptr<const generator<I...>>, PG>> v;
            for(int d : {0, 1}) {
              v.push_back({std::make_shared<generator_fermion<I...>>(d == 1, x...), PG{FERMION, d, 0, ind}});
              v.push_back({std::make_shared<generator_boson<I...>>(d == 1, x...), PG{BOSON, d, 0, ind}});
            }
            for(int m = 2; m <= 12; ++m)
              for(int c = 0; c < 3; ++c)
                v.push_back({std::make_shared<generator_spin<I...>>((m - 1) / 2.0, c == 0 ? plus : (c == 1 ? minus : z), x...), PG{SPIN, c, m, ind}});
            for(int id : {0, 1, 42})
              v.push_back({std::make_shared<gen_user<I...>>(id, x...), PG{100 + id, 0, 0, ind}});
            for(auto const& p : v) {
              std::string s = print(*p.first);
              MC_CHECK(s == p.first->to_string(), "to_string vs <<");
              Parser ps{s};
              MC_CHECK(ps.gen() == p.second && ps.end(), "\"", s, "\"");
              expression<CD, I...> e(CD(2, -0.5), monomial<I...>{p.first});
              std::string es = print(e);
              Parser pe{es};
              auto r = pe.expr();
              MC_CHECK(r.size() == 1 && r[0].first == CD(2, -0.5) && r[0].second.size() == 1 && r[0].second[0] == p.second, "\"", es, "\"");
              cx.state(mc::hstr(s));
              cx.trans(2);
              cx.validated(2);
            }
          });
}
FAMILY(c_generators) {
  cx.bound("all generator kinds (spins 1/2..11/2) over 0..4 indices of integer, string, long and dynamic types");
  std::vector<int> is = {0, -1, 7, 2147483647, std::numeric_limits<int>::min()};
  std::vector<std::string> ss = {"", "up", "x y", "10"};
  gen_case<>(cx, {""});
  for(int i : is) {
    gen_case<int>(cx, {std::to_string(i)}, i);
    gen_case<long>(cx, {std::to_string(i * 4l)}, i * 4l);
    for(auto const& s : ss) {
      gen_case<std::string>(cx, {s}, s);
      gen_case<int, std::string>(cx, {std::to_string(i), s}, i, s);
      gen_case<std::string, int>(cx, {s, std::to_string(i)}, s, i);
      gen_case<dyn_indices>(cx, {s}, dyn_indices(s));
      gen_case<dyn_indices>(cx, {s, std::to_string(i)}, dyn_indices(s, i));
      gen_case<dyn_indices, int>(cx, {std::to_string(i), s, s, "5"}, dyn_indices(i, s, s), 5);
      for(int j : is) {
        gen_case<int, std::string, int>(cx, {std::to_string(i), s, std::to_string(j)}, i, s, j);
        gen_case<int, int, std::string, unsigned>(cx, {std::to_string(j), std::to_string(i), s, "3"}, j, i, s, 3u);
        gen_case<dyn_indices>(cx, {std::to_string(i), s, std::to_string(j)}, dyn_indices(i, s, j));
      }
    }
  }
  gen_case<dyn_indices>(cx, {""}, dyn_indices());
}

// --- expressions ----------------------------------------------------------------------
template <typename S> struct from_ref;
template <> struct from_ref<double> {
  static double f(C c) { return c.real(); }
};
template <> struct from_ref<CD> {
  static CD f(C c) { return c; }
};
template <> struct from_ref<int> {
  static int f(C c) { return int(c.real()); }
};
template <> struct from_ref<Zi> {
  static Zi f(C c) { return Zi(long(c.real()), long(c.imag())); }
};
static std::vector<std::vector<G>> mons_all() {
  return {{}, {F(1, 0)}, {F(0, 1)}, {F(1, 0), F(0, 0)}, {B(1, 0), B(1, 0), B(0, 2)}, {Sg(0, 2, 0)}, {Sg(2, 3, 1), Sg(2, 3, 1), Sg(2, 3, 1)}, {F(1, 0), B(0, 0), Sg(1, 4, 0)}};
}
// everything that is seen of an expression with the terms r
template <typename S> static void check_expr(mc::Ctx& cx, expression<S, int> const& e, RPoly const& r) {
  std::vector<std::pair<C, std::vector<PG>>> expect;
  for(auto const& t : r)
    expect.emplace_back(t.second, pw(t.first));
  std::string s = print(e, 17);
  Parser ps{s};
  auto got = ps.expr();
  if(r.empty()) MC_CHECK(got.size() == 1 && got[0].first == C(0) && got[0].second.empty(), "zero printed as \"", s, "\"");
  else
    MC_CHECK(got == expect, "\"", s, "\" expected ", rstr(r));
  cx.state(mc::hstr(s));
  // iteration
  std::size_t k = 0;
  auto it_r = r.begin();
  for(auto const& m : e) {
    MC_CHECK(it_r != r.end() && decode(m.monomial, int_site()) == it_r->first && to_c(m.coeff) == it_r->second, "forward iteration, term ", k);
    ++it_r;
    ++k;
  }
  MC_CHECK(k == r.size() && e.size() == k, "number of terms");
  auto it = e.end();
  auto rr = r.rbegin();
  while(it != e.begin()) {
    --it;
    MC_CHECK(decode(it->monomial, int_site()) == rr->first && to_c((*it).coeff) == rr->second, "backward iteration");
    auto a = it, b2 = it;
    auto c1 = a++;
    MC_CHECK(c1 == it && a != it, "post-increment");
    auto c2 = a--;
    MC_CHECK(a == b2 && c2 != a, "post-decrement");
    using std::swap;
    auto e_it = e.end();
    swap(e_it, b2);
    MC_CHECK(b2 == e.end() && e_it == it, "swap");
    ++rr;
  }
  MC_CHECK(rr == r.rend() && e.cbegin() == e.begin() && e.cend() == e.end(), "backward iteration count");
  // transform: coefficient of term k times f(k), f over a pattern that includes zeros
  for(int pat = 0; pat < 3; ++pat) {
    std::vector<int> fac;
    std::size_t calls = 0;
    auto chk = r.begin();
    auto t = transform(e, [&](monomial<int> const& m, S const& c) -> S {
      if(chk == r.end() || !(decode(m, int_site()) == chk->first) || to_c(c) != chk->second) mc::fail("transform passes wrong term");
      ++chk;
      int f = pat == 0 ? int(calls % 3) - 1 : (pat == 1 ? 0 : 2);
      ++calls;
      fac.push_back(f);
      return c * from_ref<S>::f(f);
    });
    MC_CHECK(calls == r.size(), "transform calls");
    RPoly rt;
    std::size_t i = 0;
    for(auto const& x : r)
      radd(rt, x.first, x.second * C(fac[i++]));
    check_equal(t, rt, "transform");
  }
  // transform to another scalar type
  auto t2 = transform(e, [](monomial<int> const& m, S const&) { return C(double(m.size()) - 1, 0); });
  static_assert(std::is_same<decltype(t2), expression<CD, int>>::value, "transform result");
  RPoly rt;
  for(auto const& x : r)
    radd(rt, x.first, C(double(x.first.size()) - 1));
  check_equal(t2, rt, "transform to complex");
  check_equal(e, r, "argument of transform");
  cx.trans(8);
  cx.validated(8);
}
template <typename S> static void exprs(mc::Ctx& cx, std::vector<C> const& vals) {
  auto mons = mons_all();
  int nv = int(vals.size());
  int nm = cx.pick(nv > 4 ? 5 : 6, nv > 4 ? 7 : 8);
  cx.bound(mc::str("all assignments of {absent, ", nv, " coefficients} to ", nm, " monomials"));
  mc::tuples(std::vector<int>(nm, nv + 1), [&](std::vector<int> const& q) {
    cx.test([&] { return mc::vec_str(q); },
            [&] {
              expression<S, int> e;
              RPoly r;
              for(int i = 0; i < nm; ++i)
                if(q[i]) {
                  std::vector<std::shared_ptr<const generator<int>>> gens;
                  for(auto const& g : mons[i])
                    gens.push_back(make_gen(g));
                  e.get_monomials().emplace(monomial<int>(gens), from_ref<S>::f(vals[q[i] - 1]));
                  radd(r, mons[i], vals[q[i] - 1]);
                }
              check_expr<S>(cx, e, r);
            });
  });
}
FAMILY(d_expr_double) { exprs<double>(cx, {1, -2, 0.1, 1e-5}); }
FAMILY(e_expr_complex) { exprs<CD>(cx, {1, C(0, 1), C(-0.25, 1e10), C(1, -3)}); }
FAMILY(f_expr_int) { exprs<int>(cx, {1, -7, 1000000007}); }
FAMILY(g_expr_custom) { exprs<Zi>(cx, {1, C(0, -1), C(4, 5)}); }

// --- long expressions and monomials, high powers ----------------------------------------
template <typename S> static void long_exprs(mc::Ctx& cx, C c0, C c1) {
  std::vector<int> ns = cx.thorough() ? std::vector<int>{9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 513, 1000, 1025} : std::vector<int>{9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 520};
  cx.bound(mc::str("expressions of n terms and monomials of n factors, n from ", mc::vec_str(ns), ": 4 kinds of monomials, powers of generators up to n"));
  for(int n : ns)
    for(int kind = 0; kind < 8; ++kind)
      cx.test([&] { return mc::str(n, ", kind ", kind); },
              [&] {
                RPoly r;
                auto add = [&](std::vector<G> const& w, int i) { radd(r, w, c0 + double(i % 7) * c1); };
                for(int i = 0; i < n; ++i) {
                  if(kind == 0) add({F(1, i)}, i);
                  if(kind == 1) add({F(1, i % 11), F(0, i)}, i);
                  if(kind == 2) add(i ? std::vector<G>{B(1, i), B(1, i + 1), Sg(2, 2 + i % 9, i)} : std::vector<G>{}, i);
                  if(kind == 3 && i < 60) add(std::vector<G>(i, i % 2 ? B(1, 3) : B(0, 3)), i);
                }
                if(kind >= 4) {
                  std::vector<G> w;
                  for(int i = 0; i < n; ++i) {
                    if(kind == 4) w.push_back(F(1, i));
                    if(kind == 5) w.push_back(B(1, 0));
                    if(kind == 6) w.push_back(i < n / 2 ? B(1, 12) : B(0, 5));
                    if(kind == 7) w.push_back(i < 2 ? B(1, 0) : i + 1 < n ? Sg(2, 3, -4) : Sg(2, 4, 0));
                  }
                  add(w, 1);
                  add({w[0]}, 2);
                }
                expression<S, int> e;
                for(auto const& t : r) {
                  std::vector<std::shared_ptr<const generator<int>>> gens;
                  for(auto const& g : t.first)
                    gens.push_back(make_gen(g));
                  e.get_monomials().emplace(monomial<int>(gens), from_ref<S>::f(t.second));
                }
                check_expr<S>(cx, e, r);
              });
}
FAMILY(h_long_double) { long_exprs<double>(cx, -1.5, 0.5); }
FAMILY(i_long_complex) { long_exprs<CD>(cx, C(1, -2), C(0, 1)); }
