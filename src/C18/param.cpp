// C18: parametric operators equal substitution of parameters into coefficients
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
#include "uservec.hpp"
using namespace refop;

static Op F(int d, int i) { return {0, d, 2, i}; }
static Op B(int d, int i) { return {1, d, 0, i}; }
static Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }

// Polynomial in two variables; the policy decides from what arguments it is evaluated
template <typename Policy> struct Poly : Policy {
  std::map<std::pair<int, int>, double> t;
  Poly() = default;
  explicit Poly(double c) {
    if(c != 0) t[{0, 0}] = c;
  }
  static Poly var(int i, int j, double c) {
    Poly p;
    p.t[{i, j}] = c;
    return p;
  }
  double eval(double x, double y) const {
    double r = 0;
    for(auto const& k : t) {
      double v = k.second;
      for(int i = 0; i < k.first.first; ++i)
        v *= x;
      for(int i = 0; i < k.first.second; ++i)
        v *= y;
      r += v;
    }
    return r;
  }
  template <typename... A> auto operator()(A&&... a) const -> decltype(Policy::call(std::declval<Poly const&>(), std::forward<A>(a)...)) {
    return Policy::call(*this, std::forward<A>(a)...);
  }
  void clean() {
    for(auto it = t.begin(); it != t.end();)
      if(it->second == 0) it = t.erase(it);
      else
        ++it;
  }
  Poly operator+(Poly const& o) const {
    Poly r = *this;
    for(auto const& k : o.t)
      r.t[k.first] += k.second;
    r.clean();
    return r;
  }
  Poly operator-(Poly const& o) const { return *this + (-o); }
  Poly operator-() const {
    Poly r = *this;
    for(auto& k : r.t)
      k.second = -k.second;
    return r;
  }
  Poly operator*(Poly const& o) const {
    Poly r;
    for(auto const& a : t)
      for(auto const& b : o.t)
        r.t[{a.first.first + b.first.first, a.first.second + b.first.second}] += a.second * b.second;
    r.clean();
    return r;
  }
  bool operator==(Poly const& o) const { return t == o.t; }
};
namespace libcommute {
template <typename P> struct scalar_traits<Poly<P>> {
  static bool is_zero(Poly<P> const& p) { return p.t.empty(); }
  static Poly<P> make_const(var_number const& x) { return Poly<P>(double(x)); }
};
} // namespace libcommute

using Vec = std::vector<double>;
// --- argument policies: how (x, y) are delivered, and the documented result type
struct NoArgs {
  static double call(Poly<NoArgs> const& p) { return p.eval(2, -1); }
};
struct OneDouble {
  static double call(Poly<OneDouble> const& p, double x) { return p.eval(x, 3); }
};
struct TwoMixed {
  static cd call(Poly<TwoMixed> const& p, int x, double y) { return cd(p.eval(x, y), p.eval(y, x)); }
};
struct ByValueVec {
  // consumes its argument
  static double call(Poly<ByValueVec> const& p, Vec v) {
    Vec w = std::move(v);
    return p.eval(w.at(0), w.at(1));
  }
};
struct ByRefVec {
  static double call(Poly<ByRefVec> const& p, Vec const& v) { return p.eval(v.at(0), v.at(1)); }
};
struct StringAndVec {
  static cd call(Poly<StringAndVec> const& p, std::string s, Vec v) {
    std::string u = std::move(s);
    Vec w = std::move(v);
    return cd(p.eval(double(u.size()), w.at(0)), w.at(1));
  }
};
struct Shared {
  static double call(Poly<Shared> const& p, std::shared_ptr<Vec> v) {
    auto w = std::move(v);
    return p.eval((*w).at(0), (*w).at(1));
  }
};
struct FunctionArg {
  static double call(Poly<FunctionArg> const& p, std::function<double(int)> f) {
    auto g = std::move(f);
    return p.eval(g(0), g(1));
  }
};

struct Problem {
  std::vector<ES> set;
  std::vector<Word> words; // pool of monomials
};
static Problem const& problem() {
  static Problem p{{{0, 2, 0}, {0, 2, 1}, {1, 2, 0}, {2, 2, 0}},
                   {{}, {F(1, 0), F(0, 1)}, {B(1, 0)}, {S(0, 2, 0)}, {F(1, 1), F(0, 0), S(2, 2, 0)}}};
  return p;
}
// coefficient k of the pool
template <typename P> static Poly<P> coeff(int k) {
  using Q = Poly<P>;
  switch(k) {
  case 0: return Q::var(1, 0, 1);
  case 1: return Q::var(0, 1, 2) + Q(1);
  case 2: return Q::var(1, 1, -1) + Q::var(2, 0, 0.5);
  case 3: return Q(-3);
  default: return Q::var(1, 0, 1) - Q::var(0, 1, 1);
  }
}
template <typename P> static expression<Poly<P>, int> make_expr(int mask) {
  auto const& pr = problem();
  expression<Poly<P>, int> e;
  for(std::size_t k = 0; k < pr.words.size(); ++k)
    if(mask >> k & 1) {
      // monomials are already canonical
      auto u = to_expr<double>(pr.words[k]);
      for(auto const& m : u)
        e += expression<Poly<P>, int>(coeff<P>(int(k)), m.monomial);
    }
  return e;
}
template <typename SV> static SV make_state(std::size_t n, int which);
template <> std::vector<cd> make_state<std::vector<cd>>(std::size_t n, int which) {
  std::vector<cd> v(n);
  for(std::size_t i = 0; i < n; ++i)
    v[i] = which ? cd(double(i) - 5, 0.5) : cd(double((i * 7) % 5), -double(i % 3));
  return v;
}
template <> sparse_state_vector<cd> make_state<sparse_state_vector<cd>>(std::size_t n, int which) {
  auto w = make_state<std::vector<cd>>(n, which);
  sparse_state_vector<cd> v(n);
  for(std::size_t i = 0; i < n; i += 1 + which)
    if(w[i] != cd(0)) v[i] = w[i];
  return v;
}
template <> user::list_vector<cd> make_state<user::list_vector<cd>>(std::size_t n, int which) {
  auto w = make_state<std::vector<cd>>(n, which);
  user::list_vector<cd> v(n);
  for(std::size_t i = 0; i < n; ++i)
    if(i % 3 || which) v.items.emplace_back(i, w[i]);
  return v;
}
template <typename SV> static std::vector<cd> read(SV const& v, std::size_t n) {
  std::vector<cd> r;
  for(std::size_t i = 0; i < n; ++i)
    r.push_back(get_element(v, i));
  return r;
}

// One operator with its reference. 'P::val(arg)' gives the evaluated coefficient without the library.
template <typename P, typename SV> struct Bench {
  HS hs;
  Layout l;
  expression<Poly<P>, int> e;
  parametric_loperator<Poly<P>, fermion, boson, spin> op;
  std::size_t n;
  SV in, in2;
  std::vector<cd> in_ref;
  Bench(int mask) : hs(build(problem().set)), l(layout(problem().set)), e(make_expr<P>(mask)), op(make_param_loperator(e, hs)), n(get_vec_size(hs)), in(make_state<SV>(n, 0)), in2(make_state<SV>(n, 1)), in_ref(read(in, n)) {}
  Bench(std::vector<ES> const& set, expression<Poly<P>, int> const& ex) : hs(build(set)), l(layout(set)), e(ex), op(make_param_loperator(e, hs)), n(get_vec_size(hs)), in(make_state<SV>(n, 0)), in2(make_state<SV>(n, 1)), in_ref(read(in, n)) {}
  // f: coefficient -> value
  template <typename Fn> std::vector<cd> expect(Fn&& f, std::vector<cd> const& src) const {
    std::vector<cd> out(n, 0);
    for(auto const& m : e) {
      Word w;
      for(auto const& g : m.monomial)
        w.push_back(to_op(g));
      cd c = f(m.coeff);
      for(std::size_t i = 0; i < n; ++i) {
        Col col;
        add_word(l, w, c, i, col);
        for(auto const& p : col)
          out[p.first] += p.second * src[i];
      }
    }
    return out;
  }
  void same(SV const& got, std::vector<cd> const& ref, std::string const& what) const {
    for(std::size_t i = 0; i < n; ++i)
      MC_CHECK(mc::close(cd(get_element(got, i)), ref[i]), what, ": amplitude ", i, " = ", cd(get_element(got, i)), " expected ", ref[i]);
  }
};
static std::string const form_name[] = {"op(sv,args)", "op(src,dst,args)", "act_and_store_coeffs", "at(args)(sv)", "at(args)(src,dst)"};
constexpr int n_forms = 5;

// Performs call form 'form' with arguments produced by 'with' (which hands them over in some value category)
template <typename R, typename P, typename SV, typename With, typename Fn> static void call(Bench<P, SV> const& b, int form, std::vector<R>& store, With&& with, Fn&& val, std::string const& what) {
  std::string w = what + " " + form_name[form];
  auto ref = b.expect(val, b.in_ref);
  switch(form) {
  case 0: with([&](auto&&... a) { b.same(b.op(b.in, std::forward<decltype(a)>(a)...), ref, w); }); break;
  case 1:
    with([&](auto&&... a) {
      SV dst = b.in2;
      b.op(b.in, dst, std::forward<decltype(a)>(a)...);
      b.same(dst, ref, w);
    });
    break;
  case 2:
    with([&](auto&&... a) {
      SV dst = b.in2;
      b.op.act_and_store_coeffs(b.in, dst, store, std::forward<decltype(a)>(a)...);
      b.same(dst, ref, w);
      MC_CHECK(store.size() == b.e.size(), w, ": ", store.size(), " stored coefficients for ", b.e.size(), " monomials");
      std::size_t k = 0;
      for(auto const& m : b.e) {
        MC_CHECK(mc::close(cd(store[k]), cd(val(m.coeff))), w, ": stored coefficient ", k, " = ", cd(store[k]), " expected ", cd(val(m.coeff)));
        ++k;
      }
    });
    break;
  case 3:
    with([&](auto&&... a) {
      auto lop = b.op.at(std::forward<decltype(a)>(a)...);
      b.same(lop(b.in), ref, w);
      b.same(lop * b.in, ref, w + " product");
    });
    break;
  default:
    with([&](auto&&... a) {
      auto lop = b.op.at(std::forward<decltype(a)>(a)...);
      SV dst = b.in2;
      lop(b.in, dst);
      b.same(dst, ref, w);
      auto copy = lop;
      b.same(copy(b.in), ref, w + " copy");
    });
  }
  for(std::size_t i = 0; i < b.n; ++i)
    MC_CHECK(cd(get_element(b.in, i)) == b.in_ref[i], w, ": source changed");
}
// arguments: 3 argument sets, value categories 0 lvalue, 1 const lvalue, 2 temporary, 3 moved
static double const xs[3] = {2, 0, -1};
static double const ys[3] = {-1.5, 3, 4};
template <typename T, typename K> static void deliver(T const& v, int cat, K&& k) {
  switch(cat) {
  case 0: {
    T a = v;
    k(a);
    MC_CHECK(a == v, "lvalue argument was changed");
  } break;
  case 1: {
    T const a = v;
    k(a);
  } break;
  case 2: k(T(v)); break;
  default: {
    T a = v;
    k(std::move(a));
  }
  }
}
template <typename P> struct Args;
template <> struct Args<NoArgs> {
  using R = double;
  enum : int { sets = 1, cats = 1 };
  template <typename K> static void with(int, int, K&& k) { k(); }
  static double val(Poly<NoArgs> const& p, int) { return p.eval(2, -1); }
};
template <> struct Args<OneDouble> {
  using R = double;
  enum : int { sets = 3, cats = 4 };
  template <typename K> static void with(int s, int c, K&& k) { deliver(xs[s], c, k); }
  static double val(Poly<OneDouble> const& p, int s) { return p.eval(xs[s], 3); }
};
template <> struct Args<TwoMixed> {
  using R = cd;
  enum : int { sets = 3, cats = 4 };
  template <typename K> static void with(int s, int c, K&& k) {
    deliver(int(xs[s]), c, [&](auto&& a) { deliver(ys[s], c, [&](auto&& b) { k(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
  }
  static cd val(Poly<TwoMixed> const& p, int s) { return cd(p.eval(xs[s], ys[s]), p.eval(ys[s], xs[s])); }
};
template <typename P> struct VecArgs {
  using R = double;
  enum : int { sets = 3, cats = 4 };
  template <typename K> static void with(int s, int c, K&& k) { deliver(Vec{xs[s], ys[s]}, c, k); }
  static double val(Poly<P> const& p, int s) { return p.eval(xs[s], ys[s]); }
};
template <> struct Args<ByValueVec> : VecArgs<ByValueVec> {};
template <> struct Args<ByRefVec> : VecArgs<ByRefVec> {};
template <> struct Args<StringAndVec> {
  using R = cd;
  enum : int { sets = 3, cats = 4 };
  static std::string str(int s) { return std::string(s * 30, 'q'); }
  template <typename K> static void with(int s, int c, K&& k) {
    deliver(str(s), c, [&](auto&& a) { deliver(Vec{xs[s], ys[s]}, (c + 1) % 4, [&](auto&& b) { k(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
  }
  static cd val(Poly<StringAndVec> const& p, int s) { return cd(p.eval(30 * s, xs[s]), ys[s]); }
};
template <> struct Args<Shared> {
  using R = double;
  enum : int { sets = 3, cats = 4 };
  template <typename K> static void with(int s, int c, K&& k) { deliver(std::make_shared<Vec>(Vec{xs[s], ys[s]}), c, k); }
  static double val(Poly<Shared> const& p, int s) { return p.eval(xs[s], ys[s]); }
};
template <> struct Args<FunctionArg> {
  using R = double;
  enum : int { sets = 3, cats = 2 };
  template <typename K> static void with(int s, int c, K&& k) {
    std::function<double(int)> f = [s](int i) { return i ? ys[s] : xs[s]; };
    if(c) k(std::move(f));
    else
      k(f);
  }
  static double val(Poly<FunctionArg> const& p, int s) { return p.eval(xs[s], ys[s]); }
};
static int const L_hist[2] = {2, 3};
template <typename P, typename SV> static void histories(mc::Ctx& cx, char const* name, int L) {
  using A = Args<P>;
  using R = typename A::R;
  cx.bound(mc::str(name, ": all histories of up to ", L, " calls over ", n_forms, " call forms x ", int(A::sets), " argument sets x ", int(A::cats), " value categories on every operator with 0..5 monomials out of 5; coefficient storage reused, with prior sizes 0, 1, 9"));
  int alpha = n_forms * A::sets * A::cats;
  for(int mask = 0; mask < 32; ++mask)
    mc::words(alpha, 1, (mask == 31 || mask == 19) ? L : 1, [&](std::vector<int> const& w) {
      cx.test(
          [&] {
            std::string s = mc::str(name, ", monomials mask ", mask, ":");
            for(int x : w)
              s += mc::str(" ", form_name[x % n_forms], "[args ", x / n_forms % A::sets, ", category ", x / n_forms / A::sets, "]");
            return s;
          },
          [&] {
            Bench<P, SV> b(mask);
            for(int prior : {0, 1, 9}) {
              std::vector<R> store(prior, R(77));
              for(int x : w) {
                int form = x % n_forms, set = x / n_forms % A::sets, cat = x / n_forms / A::sets;
                call<R>(
                    b, form, store, [&](auto&& k) { A::with(set, cat, k); }, [&](Poly<P> const& c) { return A::val(c, set); }, name);
                cx.trans();
              }
              if(w.size() == 1 && w[0] % n_forms != 2) break;
            }
            cx.validated();
            uint64_t h = mask;
            for(int x : w)
              h = mc::hcomb(h, x);
            cx.state(h);
          });
    });
}
using DV = std::vector<cd>;
using SpV = sparse_state_vector<cd>;
FAMILY(no_arguments) { histories<NoArgs, DV>(cx, "f()", 3); }
FAMILY(one_double) { histories<OneDouble, DV>(cx, "f(double)", 2); }
FAMILY(int_double_to_complex) { histories<TwoMixed, DV>(cx, "f(int,double)->complex", 2); }
FAMILY(vector_by_value) { histories<ByValueVec, DV>(cx, "f(vector)", 2); }
FAMILY(vector_by_value_sparse) { histories<ByValueVec, SpV>(cx, "f(vector) on sparse states", cx.pick(1, 2)); }
FAMILY(user_vectors) {
  histories<TwoMixed, user::list_vector<cd>>(cx, "f(int,double)->complex on user-defined states", 1);
  histories<ByValueVec, user::list_vector<cd>>(cx, "f(vector) on user-defined states", 1);
}
FAMILY(vector_by_reference) { histories<ByRefVec, DV>(cx, "f(vector const&)", 2); }
FAMILY(string_and_vector) { histories<StringAndVec, DV>(cx, "f(string,vector)", 2); }
FAMILY(shared_pointer) { histories<Shared, DV>(cx, "f(shared_ptr)", 2); }
FAMILY(function_object) { histories<FunctionArg, DV>(cx, "f(std::function)", cx.pick(2, 3)); }

template <typename P, typename SV> static void many_monomials(mc::Ctx& cx, char const* name) {
  using A = Args<P>;
  using R = typename A::R;
  std::vector<int> ns = cx.thorough() ? std::vector<int>{6, 7, 8, 9, 10, 15, 16, 17, 20, 24, 31, 32, 33, 50, 63, 64, 65, 100, 128, 129} : std::vector<int>{6, 8, 9, 16, 17, 33, 65, 129};
  cx.bound(mc::str(name, ": operators with n monomials, n from ", mc::vec_str(ns), ", all call forms x ", int(A::sets), " argument sets x ", int(A::cats), " value categories; one storage of coefficients through operators of growing and shrinking length"));
  std::vector<ES> set{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}, {1, 4, 0}, {2, 3, 0}};
  std::vector<Word> words;
  for(int d = 0; d < 4; ++d)
    for(int i = 0; i < 4; ++i)
      for(int j = 0; j < 4; ++j)
        for(int x = 0; x < 4; ++x) {
          Word w;
          if(d & 1) w.push_back(F(1, i));
          else if(i)
            continue;
          if(d & 2) w.push_back(F(0, j));
          else if(j)
            continue;
          if(x & 1) w.push_back(B(1, 0));
          if(x & 2) w.push_back(S(2 - i % 3, 3, 0));
          words.push_back(w);
        }
  std::size_t nw = words.size();
  for(std::size_t k = 0; k < nw; ++k) {
    Word w = words[k];
    w.push_back(B(1, 0));
    w.push_back(B(1, 0));
    words.push_back(w); // two or three creators
  }
  auto make = [words](int n) {
    expression<Poly<P>, int> e;
    for(std::size_t k = 0; k < words.size() && int(e.size()) < n; ++k) {
      auto u = to_expr<double>(words[k]);
      for(auto const& m : u)
        e += expression<Poly<P>, int>(coeff<P>(int(k) % 5) + Poly<P>(double(k)), m.monomial);
    }
    return e;
  };
  for(int n : ns)
    for(int form = 0; form < n_forms; ++form)
      for(int s = 0; s < A::sets; ++s)
        cx.test([&] { return mc::str(name, ": ", n, " monomials, ", form_name[form], ", arguments ", s); },
                [&] {
                  std::vector<R> store(3, R(77));
                  for(int m : {n, 2, n + 1, n, 0}) {
                    auto e = make(m);
                    MC_CHECK(int(e.size()) == m, "harness: not enough monomials");
                    Bench<P, SV> b(set, e);
                    for(int c = 0; c < A::cats; ++c)
                      call<R>(
                          b, form, store, [&](auto&& k) { A::with(s, c, k); }, [&](Poly<P> const& q) { return A::val(q, s); }, name);
                    cx.trans(A::cats);
                  }
                  cx.validated();
                  cx.state(mc::hcomb(n, form * 10 + s));
                });
}
FAMILY(many_monomials_double) { many_monomials<OneDouble, DV>(cx, "f(double)"); }
FAMILY(many_monomials_vector) { many_monomials<ByValueVec, DV>(cx, "f(vector)"); }
FAMILY(many_monomials_sparse) { many_monomials<TwoMixed, SpV>(cx, "f(int,double)->complex on sparse states"); }

// parametric expressions computed with expression arithmetic; substitution commutes with it
FAMILY(arithmetic) {
  cx.bound("sums and products of all pairs of 1..2-term parametric expressions, evaluated at 3 arguments, against substitution first and arithmetic afterwards; copies, moves and assignments of parametric operators");
  using P = OneDouble;
  for(int a = 1; a < 32; ++a)
    for(int b = 1; b < 32; ++b) {
      if(!cx.thorough() && (__builtin_popcount(a) > 2 || __builtin_popcount(b) > 2)) continue;
      cx.test([&] { return mc::str("masks ", a, ",", b); },
              [&] {
                HS hs = build(problem().set);
                auto ea = make_expr<P>(a), eb = make_expr<P>(b);
                auto sum = ea + eb, prod = ea * eb, dif = ea - eb;
                auto op1 = make_param_loperator(sum, hs), op2 = make_param_loperator(prod, hs), op3 = make_param_loperator(dif, hs);
                auto in = make_state<DV>(get_vec_size(hs), 0);
                auto c1 = op2;
                auto c2 = std::move(op2);
                op2 = c1;
                op2 = *&op2;
                for(int s = 0; s < 3; ++s) {
                  auto subst = [&](expression<Poly<P>, int> const& e) {
                    expression<double, int> r;
                    for(auto const& m : e)
                      r += expression<double, int>(Args<P>::val(m.coeff, s), m.monomial);
                    return r;
                  };
                  auto cmp = [&](DV const& x, DV const& y, char const* what) {
                    for(std::size_t i = 0; i < x.size(); ++i)
                      MC_CHECK(mc::close(x[i], y[i]), what, " at x = ", xs[s], ": amplitude ", i, " = ", x[i], " expected ", y[i]);
                  };
                  double x = xs[s];
                  cmp(op1(in, x), make_loperator(subst(ea) + subst(eb), hs)(in), "sum");
                  cmp(op3(in, x), make_loperator(subst(ea) - subst(eb), hs)(in), "difference");
                  auto ref = make_loperator(subst(ea) * subst(eb), hs)(in);
                  cmp(op2(in, x), ref, "product");
                  cmp(c1(in, x), ref, "product, copy");
                  cmp(c2(in, x), ref, "product, moved-to");
                  cx.trans(5);
                }
                cx.validated();
                cx.state(a * 64 + b);
              });
    }
}
// Evaluated coefficients of any magnitude
FAMILY(magnitudes) {
  cx.bound(mc::str("coefficients x, 1 + 2y, -xy + x^2/2, -3, x - y at x, y from 0, +-1 and ", mc::vec_str(magnitudes()), ": every operator with 1..5 monomials, every basis state with amplitudes 1 and 10^10, all call forms, relative comparison"));
  using P = ByRefVec;
  std::vector<double> vals{0, 1, -1};
  for(double m : magnitudes())
    vals.push_back(m);
  for(int mask = 1; mask < 32; ++mask)
    for(double x : vals)
      for(double y : vals)
        cx.test([&] { return mc::str("monomials mask ", mask, ", x = ", x, ", y = ", y); },
                [&] {
                  HS hs = build(problem().set);
                  Layout l = layout(problem().set);
                  auto op = make_param_loperator(make_expr<P>(mask), hs);
                  Sum sum;
                  for(int k = 0; k < 5; ++k)
                    if(mask >> k & 1) sum.emplace_back(coeff<P>(k).eval(x, y), problem().words[k]);
                  Vec args{x, y};
                  auto fixed = op.at(args);
                  uint64_t h = mask;
                  for(uint64_t in : states(l))
                    for(double amp : {1.0, 1e10}) {
                      DV src(get_vec_size(hs)), dst(get_vec_size(hs), 7);
                      src[in] = amp;
                      check_scaled_col(l, op(src, args), sum, sum, amp, in, form_name[0]);
                      op(src, dst, args);
                      check_scaled_col(l, dst, sum, sum, amp, in, form_name[1]);
                      std::vector<double> store;
                      op.act_and_store_coeffs(src, dst, store, args);
                      check_scaled_col(l, dst, sum, sum, amp, in, form_name[2]);
                      check_scaled_col(l, fixed(src), sum, sum, amp, in, form_name[3]);
                      SpV ssrc(get_vec_size(hs)), sdst(get_vec_size(hs));
                      ssrc[in] = amp;
                      fixed(ssrc, sdst);
                      check_scaled_col(l, sdst, sum, sum, amp, in, form_name[4]);
                      op(ssrc, sdst, args);
                      check_scaled_col(l, sdst, sum, sum, amp, in, "sparse");
                      cx.trans(6);
                      h = mc::hcomb(h, hash(column(l, sum, in)));
                    }
                  cx.validated();
                  cx.state(h);
                });
}
