// C09: user-defined algebras are normal ordered faithfully
#include "mc.hpp"
#include <libcommute/libcommute.hpp>
#include <map>
#include <memory>
#include <optional>
using namespace libcommute;
using CD = std::complex<double>;
using Gen = generator<int>;
using GP = std::shared_ptr<const Gen>;
using LF = Gen::linear_function_t;

// --- matrices -----------------------------------------------------------------
struct Mat {
  int d = 0;
  std::vector<CD> a;
  Mat() = default;
  explicit Mat(int d) : d(d), a(std::size_t(d) * d, 0) {}
  CD& operator()(int i, int j) { return a[std::size_t(i) * d + j]; }
  CD operator()(int i, int j) const { return a[std::size_t(i) * d + j]; }
};
static Mat id(int d) {
  Mat m(d);
  for(int i = 0; i < d; ++i)
    m(i, i) = 1;
  return m;
}
static Mat operator*(Mat const& x, Mat const& y) {
  Mat r(x.d);
  for(int i = 0; i < x.d; ++i)
    for(int k = 0; k < x.d; ++k)
      if(x(i, k) != 0.0)
        for(int j = 0; j < x.d; ++j)
          r(i, j) += x(i, k) * y(k, j);
  return r;
}
static void axpy(Mat& r, CD c, Mat const& x) {
  for(std::size_t i = 0; i < r.a.size(); ++i)
    r.a[i] += c * x.a[i];
}
static Mat scaled(CD c, Mat const& x) {
  Mat r(x.d);
  axpy(r, c, x);
  return r;
}
static Mat kron(Mat const& x, Mat const& y) {
  Mat r(x.d * y.d);
  for(int i = 0; i < x.d; ++i)
    for(int j = 0; j < x.d; ++j)
      for(int k = 0; k < y.d; ++k)
        for(int l = 0; l < y.d; ++l)
          r(i * y.d + k, j * y.d + l) = x(i, j) * y(k, l);
  return r;
}
static Mat dsum(std::vector<Mat> const& v) {
  int d = 0;
  for(auto const& m : v)
    d += m.d;
  Mat r(d);
  int o = 0;
  for(auto const& m : v) {
    for(int i = 0; i < m.d; ++i)
      for(int j = 0; j < m.d; ++j)
        r(o + i, o + j) = m(i, j);
    o += m.d;
  }
  return r;
}
static Mat dagger(Mat const& x) {
  Mat r(x.d);
  for(int i = 0; i < x.d; ++i)
    for(int j = 0; j < x.d; ++j)
      r(i, j) = std::conj(x(j, i));
  return r;
}
static Mat sparse(int d, std::vector<std::tuple<int, int, CD>> const& e) {
  Mat r(d);
  for(auto const& t : e)
    r(std::get<0>(t), std::get<1>(t)) = std::get<2>(t);
  return r;
}

// --- a user-defined algebra, table driven ----------------------------------------
struct Lin {
  var_number c = 0;
  std::vector<std::pair<int, var_number>> t;
};
struct Algebra {
  std::string name;
  int id = 0;
  int n = 0;                                                       // generators 0..n-1, ordered by number
  std::function<std::pair<var_number, Lin>(int, int)> swap;        // i > j
  std::function<std::optional<Lin>(int, int)> prod;                // i <= j
  std::function<std::optional<Lin>(int, int)> power;               // (i, p)
  std::function<Lin(int)> conj;                                    // optional
  std::vector<Mat> rep;                                            // representation
  int cols = -1;                                                   // columns of rep that are exact (-1: all), after L factors lose L columns
  bool unique = true;                                              // rewriting is confluent: all bracketings agree
  bool hermitian = false;                                          // generators are self-adjoint: the documented default of conj()
};
class UGen : public Gen {
  Algebra const* A_;
  void out(Lin const& l, LF& f) const {
    std::vector<std::pair<GP, var_number>> t;
    for(auto const& x : l.t)
      t.emplace_back(x.first == k() ? shared_from_this() : std::static_pointer_cast<const Gen>(std::make_shared<UGen>(A_, x.first)), x.second);
    f.set(l.c, t);
  }

public:
  UGen(Algebra const* A, int k) : Gen(k), A_(A) {}
  int k() const { return std::get<0>(indices()); }
  Algebra const* alg() const { return A_; }
  int algebra_id() const override { return A_->id; }
  var_number swap_with(Gen const& g2, LF& f) const override {
    auto r = A_->swap(k(), dynamic_cast<UGen const&>(g2).k());
    out(r.second, f);
    return r.first;
  }
  bool simplify_prod(Gen const& g2, LF& f) const override {
    if(!A_->prod) return false;
    auto r = A_->prod(k(), dynamic_cast<UGen const&>(g2).k());
    if(!r) return false;
    out(*r, f);
    return true;
  }
  bool reduce_power(int p, LF& f) const override {
    if(!A_->power) return false;
    auto r = A_->power(k(), p);
    if(!r) return false;
    out(*r, f);
    return true;
  }
  void conj(LF& f) const override {
    if(A_->conj) out(A_->conj(k()), f);
    else
      Gen::conj(f);
  }
};

// --- checks ----------------------------------------------------------------------------
using E = expression<double, int>;
struct Letter {
  GP g;
  Mat m;
  std::string name;
};
// Evaluate an expression over the letters' representation
static Mat eval(E const& e, std::vector<Letter> const& L, int d) {
  Mat r(d);
  for(auto const& t : e.get_monomials()) {
    Mat p = id(d);
    for(auto const& g : t.first) {
      bool found = false;
      for(auto const& l : L)
        if(*l.g == g) {
          p = p * l.m;
          found = true;
          break;
        }
      if(!found) mc::fail(mc::str("unexpected generator in result: ", g));
    }
    axpy(r, t.second, p);
  }
  return r;
}
static void bracketings(std::vector<E> const& f, int i, int j, std::vector<E>& out) {
  if(j - i == 1) {
    out.push_back(f[i]);
    return;
  }
  for(int k = i + 1; k < j; ++k) {
    std::vector<E> l, r;
    bracketings(f, i, k, l);
    bracketings(f, k, j, r);
    for(auto const& a : l)
      for(auto const& b : r)
        out.push_back(a * b);
  }
}
static void check_word(mc::Ctx& cx, std::vector<Letter> const& L, std::vector<int> const& w, int lossy, bool unique, bool star) {
  int d = L[0].m.d;
  std::vector<E> fac;
  Mat expect = id(d);
  std::vector<GP> gens;
  for(int i : w) {
    fac.push_back(E(1.0, monomial<int>{L[i].g}));
    gens.push_back(L[i].g);
    expect = expect * L[i].m;
  }
  std::vector<E> all;
  if(w.size() <= 9) bracketings(fac, 0, int(fac.size()), all);
  else {
    // long words: fold from the left, from the right, and halve
    E l = fac.front(), r = fac.back();
    for(std::size_t k = 1; k < fac.size(); ++k) {
      l = l * fac[k];
      r = fac[fac.size() - 1 - k] * r;
    }
    std::function<E(std::size_t, std::size_t)> halve = [&](std::size_t i, std::size_t j) { return j - i == 1 ? fac[i] : halve(i, (i + j) / 2) * halve((i + j) / 2, j); };
    all = {l, r, halve(0, fac.size())};
  }
  all.push_back(E(1.0, monomial<int>(gens)));
  auto same = [&](Mat const& got, Mat const& want, int len, std::string const& what) {
    double scale = 1;
    for(auto const& x : want.a)
      scale = std::max(scale, std::abs(x));
    for(int i = 0; i < d; ++i)
      for(int j = 0; j < d; ++j) {
        if(lossy && (j % lossy) + len >= lossy) continue; // truncated representation
        if(lossy && (i % lossy) + 0 >= lossy) continue;
        MC_CHECK(std::abs(got(i, j) - want(i, j)) <= 1e-9 * std::max(scale, std::abs(want(i, j))), what, ": element (", i, ",", j, ") is ", got(i, j), " expected ", want(i, j));
      }
  };
  for(std::size_t b = 0; b < all.size(); ++b) {
    E const& e = all[b];
    same(eval(e, L, d), expect, int(w.size()), mc::str("route ", b, " gives ", e));
    for(auto const& t : e.get_monomials()) {
      MC_CHECK(t.first.is_ordered(), "unordered monomial ", t.first);
      if(unique) {
        E again(t.second, t.first);
        MC_CHECK(again.size() == 1 && again.get_monomials().begin()->first == t.first, "stored monomial ", t.first, " can be simplified further to ", again);
      }
    }
    if(unique) MC_CHECK(e == all[0], "bracketings differ: ", e, " vs ", all[0]);
  }
  if(star) {
    E c = conj(all[0]);
    if(!lossy) same(eval(c, L, d), dagger(expect), int(w.size()), mc::str("conj gives ", c));
    if(unique) {
      MC_CHECK(conj(c) == all[0], "conj is not an involution");
      for(std::size_t k = 1; k < w.size(); ++k) {
        E a(1.0, monomial<int>(std::vector<GP>(gens.begin(), gens.begin() + k))), b(1.0, monomial<int>(std::vector<GP>(gens.begin() + k, gens.end())));
        MC_CHECK(conj(b) * conj(a) == c, "conj(ab) != conj(b)conj(a)");
      }
    }
  }
  uint64_t h = 1;
  for(auto const& t : all[0].get_monomials())
    h = mc::hcomb(h, mc::hcomb(mc::hdbl(t.second), mc::hstr(mc::str(t.first))));
  cx.state(h);
  cx.trans(all.size());
  cx.validated(all.size());
}
static void run(mc::Ctx& cx, std::vector<Letter> const& L, std::string const& name, int len, int lossy, bool unique, bool star) {
  cx.bound(mc::str(name, ": all words of length 1..", len, " over ", L.size(), " generators, all bracketings"));
  mc::words(int(L.size()), 1, len, [&](std::vector<int> const& w) {
    cx.test(
        [&] {
          std::string s = name + ": ";
          for(int i : w)
            s += L[i].name + " ";
          return s;
        },
        [&] { check_word(cx, L, w, lossy, unique, star); });
  });
}
// validate the harness' own tables: the representation satisfies the relations
static void check_tables(Algebra const& A, int lossy) {
  int d = A.rep[0].d;
  auto lin = [&](Lin const& l) {
    Mat r = scaled(double(l.c), id(d));
    for(auto const& t : l.t)
      axpy(r, double(t.second), A.rep[t.first]);
    return r;
  };
  auto eq = [&](Mat const& a, Mat const& b, int len) {
    for(int i = 0; i < d; ++i)
      for(int j = 0; j < d; ++j) {
        if(lossy && (j % lossy) + len >= lossy) continue;
        if(!mc::close(a(i, j), b(i, j))) mc::fail("harness table of " + A.name + " is inconsistent");
      }
  };
  for(int i = 0; i < A.n; ++i)
    for(int j = 0; j < A.n; ++j) {
      if(i > j) {
        auto s = A.swap(i, j);
        Mat r = lin(s.second);
        axpy(r, double(s.first), A.rep[j] * A.rep[i]);
        eq(A.rep[i] * A.rep[j], r, 2);
      } else if(A.prod) {
        auto p = A.prod(i, j);
        if(p) eq(A.rep[i] * A.rep[j], lin(*p), 2);
      }
      if(A.power)
        for(int p = 3; p < 6; ++p) {
          auto l = A.power(i, p);
          Mat m = id(d);
          for(int k = 0; k < p; ++k)
            m = m * A.rep[i];
          if(l) eq(m, lin(*l), p);
        }
      if(A.conj && !lossy) eq(dagger(A.rep[i]), lin(A.conj(i)), 1);
      if(A.hermitian) eq(dagger(A.rep[i]), A.rep[i], 1);
    }
}
static std::vector<Letter> letters(Algebra const& A) {
  std::vector<Letter> L;
  for(int k = 0; k < A.n; ++k)
    L.push_back({std::make_shared<UGen>(&A, k), A.rep[k], mc::str(A.name, k)});
  return L;
}
// Adjoin generators acting on an independent tensor factor
static std::vector<Letter> tensor(std::vector<Letter> const& x, std::vector<Letter> const& y) {
  std::vector<Letter> r;
  int dx = x[0].m.d, dy = y[0].m.d;
  for(auto const& l : x)
    r.push_back({l.g, kron(l.m, id(dy)), l.name});
  for(auto const& l : y)
    r.push_back({l.g, kron(id(dx), l.m), l.name});
  return r;
}
static std::vector<Letter> builtin_fermion() {
  return {{static_indices::make_fermion(true, 0), sparse(2, {{1, 0, 1}}), "C+"}, {static_indices::make_fermion(false, 0), sparse(2, {{0, 1, 1}}), "C"}};
}
static std::vector<Letter> builtin_spin() {
  return {{static_indices::make_spin(plus, 0), sparse(2, {{0, 1, 1}}), "S+"}, {static_indices::make_spin(minus, 0), sparse(2, {{1, 0, 1}}), "S-"}, {static_indices::make_spin(libcommute::z, 0), sparse(2, {{0, 0, 0.5}, {1, 1, -0.5}}), "Sz"}};
}

// --- the algebras -------------------------------------------------------------------------
static Algebra clifford() {
  Algebra A;
  A.name = "gamma";
  A.n = 4;
  CD I(0, 1);
  Mat s0 = id(2), sx = sparse(2, {{0, 1, 1}, {1, 0, 1}}), sy = sparse(2, {{0, 1, -I}, {1, 0, I}}), sz = sparse(2, {{0, 0, 1}, {1, 1, -1}});
  Mat isy = sparse(2, {{0, 1, 1}, {1, 0, -1}});
  A.rep = {kron(sz, s0), kron(isy, sx), kron(isy, sy), kron(isy, sz)};
  A.swap = [](int, int) { return std::make_pair(var_number(-1), Lin{}); };
  A.prod = [](int i, int j) -> std::optional<Lin> { return i == j ? std::optional<Lin>(Lin{i == 0 ? 1 : -1, {}}) : std::nullopt; };
  A.conj = [](int i) { return Lin{0, {{i, i == 0 ? 1 : -1}}}; };
  return A;
}
// Euclidean Clifford algebra: self-adjoint generators, conj() is not overridden
static Algebra euclidean(int n) {
  Algebra A;
  A.name = mc::str("sigma", n, "_");
  A.n = n;
  CD I(0, 1);
  Mat s0 = id(2), sx = sparse(2, {{0, 1, 1}, {1, 0, 1}}), sy = sparse(2, {{0, 1, -I}, {1, 0, I}}), sz = sparse(2, {{0, 0, 1}, {1, 1, -1}});
  A.rep = {kron(sx, s0), kron(sy, s0), kron(sz, sx), kron(sz, sy), kron(sz, sz)};
  A.rep.resize(n);
  A.swap = [](int, int) { return std::make_pair(var_number(-1), Lin{}); };
  A.prod = [](int i, int j) -> std::optional<Lin> { return i == j ? std::optional<Lin>(Lin{1, {}}) : std::nullopt; };
  A.hermitian = true;
  return A;
}
static Algebra matrix_units(int n) {
  Algebra A;
  A.name = mc::str("E", n, "_");
  A.n = n * n;
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < n; ++j)
      A.rep.push_back(sparse(n, {{i, j, 1}}));
  auto mul = [n](int x, int y) {
    Lin l;
    if(x % n == y / n) l.t.push_back({(x / n) * n + y % n, 1});
    return l;
  };
  A.swap = [=](int x, int y) { return std::make_pair(var_number(0), mul(x, y)); };
  A.prod = [=](int x, int y) { return std::optional<Lin>(mul(x, y)); };
  A.conj = [n](int x) { return Lin{0, {{(x % n) * n + x / n, 1}}}; };
  return A;
}
// gl(2): [E_ij, E_kl] = d_jk E_il - d_li E_kj on Sym^0..Sym^4
static Algebra gl2() {
  Algebra A;
  A.name = "gl2_";
  A.n = 4;
  for(int i = 0; i < 2; ++i)
    for(int j = 0; j < 2; ++j) { // x_i d/dx_j on monomials x0^a x1^(k-a)
      std::vector<Mat> blocks;
      for(int k = 0; k <= 4; ++k) {
        Mat m(k + 1);
        for(int a = 0; a <= k; ++a) {
          int e[2] = {a, k - a};
          if(e[j] == 0) continue;
          double c = e[j];
          --e[j];
          ++e[i];
          m(e[0], a) = c;
        }
        blocks.push_back(m);
      }
      A.rep.push_back(dsum(blocks));
    }
  A.swap = [](int x, int y) {
    int i = x / 2, j = x % 2, k = y / 2, l = y % 2;
    Lin r;
    if(j == k) r.t.push_back({i * 2 + l, 1});
    if(l == i) r.t.push_back({k * 2 + j, -1});
    return std::make_pair(var_number(1), r);
  };
  return A;
}
// so(3) in real antisymmetric form with half-integer structure constants
static Algebra so3(bool rational) {
  Algebra A;
  A.name = rational ? "T(rational)" : "T(real)";
  A.n = 3;
  auto eps = [](int i, int j, int k) { return (i - j) * (j - k) * (k - i) / 2; };
  for(int i = 0; i < 3; ++i) {
    Mat m(3);
    for(int j = 0; j < 3; ++j)
      for(int k = 0; k < 3; ++k)
        m(j, k) = -0.5 * eps(i, j, k);
    A.rep.push_back(dsum({m, kron(m, id(3)).d ? [&] {
                            Mat t = kron(m, id(3));
                            axpy(t, 1, kron(id(3), m));
                            return t;
                          }()
                                              : m}));
  }
  A.swap = [=](int i, int j) {
    int k = 3 - i - j;
    int s = eps(i, j, k);
    return std::make_pair(var_number(1), Lin{0, {{k, rational ? var_number(s, 2) : var_number(s * 0.5)}}});
  };
  A.conj = [](int i) { return Lin{0, {{i, -1}}}; };
  return A;
}
static Algebra quaternion(bool c_zero) {
  Algebra A;
  A.name = c_zero ? "q(c=0)" : "q(c=-1)";
  A.n = 3;
  A.rep = {sparse(2, {{0, 0, CD(0, 1)}, {1, 1, CD(0, -1)}}), sparse(2, {{0, 1, 1}, {1, 0, -1}}), sparse(2, {{0, 1, CD(0, 1)}, {1, 0, CD(0, 1)}})};
  auto sgn = [](int i, int j) { return (j - i + 3) % 3 == 1 ? 1 : -1; };
  A.swap = [=](int i, int j) {
    if(c_zero) return std::make_pair(var_number(0), Lin{0, {{3 - i - j, sgn(i, j)}}});
    return std::make_pair(var_number(-1), Lin{});
  };
  A.prod = [=](int i, int j) -> std::optional<Lin> {
    if(i == j) return Lin{-1, {}};
    return Lin{0, {{3 - i - j, sgn(i, j)}}};
  };
  A.conj = [](int i) { return Lin{0, {{i, -1}}}; };
  return A;
}
// a a+ = q a+ a + 1; generator 0 = a+, 1 = a
static int const TR = 10;
static Algebra qosc(var_number q, std::string const& name) {
  Algebra A;
  A.name = "qosc(" + name + ")";
  A.n = 2;
  Mat ad(TR), a(TR);
  double v = 1, x = double(q); // [n+1] = q[n] + 1
  for(int n = 0; n + 1 < TR; ++n) {
    ad(n + 1, n) = 1;
    a(n, n + 1) = v;
    v = x * v + 1;
  }
  A.rep = {ad, a};
  A.swap = [=](int, int) { return std::make_pair(q, Lin{1, {}}); };
  return A;
}
// x_i x_j = q x_j x_i for i > j
static Algebra qplane(var_number q, std::string const& name) {
  Algebra A;
  A.name = "qplane(" + name + ")";
  A.n = 2;
  // X1|n> = q^n |n>, X0|n> = |n+1>: X1 X0 = q X0 X1
  Mat s(TR), k(TR);
  double p = 1;
  for(int n = 0; n < TR; ++n) {
    if(n + 1 < TR) s(n + 1, n) = 1;
    k(n, n) = p;
    p *= double(q);
  }
  A.rep = {s, k};
  A.swap = [=](int, int) { return std::make_pair(q, Lin{}); };
  return A;
}
// commuting x, y, w with x^3 = 2 + 3x, y^4 = 1 - y, w^3 = 1
static Algebra powers() {
  Algebra A;
  A.name = "pow";
  A.n = 3;
  Mat x = sparse(3, {{1, 0, 1}, {2, 1, 1}, {0, 2, 2}, {1, 2, 3}});
  Mat y = sparse(4, {{1, 0, 1}, {2, 1, 1}, {3, 2, 1}, {0, 3, 1}, {1, 3, -1}});
  Mat w = sparse(3, {{1, 0, 1}, {2, 1, 1}, {0, 2, 1}});
  A.rep = {kron(kron(x, id(4)), id(3)), kron(kron(id(3), y), id(3)), kron(kron(id(3), id(4)), w)};
  A.swap = [](int, int) { return std::make_pair(var_number(1), Lin{}); };
  A.power = [](int i, int p) -> std::optional<Lin> {
    if(i == 0 && p == 3) return Lin{2, {{0, 3}}};
    if(i == 1 && p == 4) return Lin{1, {{1, -1}}};
    if(i == 2 && p == 3) return Lin{1, {}};
    return std::nullopt;
  };
  return A;
}
// commuting orthogonal projectors P0..P2
static Algebra projectors(var_number one, std::string const& name) {
  Algebra A;
  A.name = "P(" + name + ")";
  A.n = 3;
  for(int i = 0; i < 3; ++i)
    A.rep.push_back(sparse(4, {{i, i, 1}}));
  A.swap = [=](int, int) { return std::make_pair(one, Lin{}); };
  A.prod = [](int i, int j) -> std::optional<Lin> {
    if(i == j) return Lin{0, {{i, 1}}};
    return Lin{};
  };
  A.conj = [](int i) { return Lin{0, {{i, 1}}}; };
  return A;
}
// orthogonal projectors p = 0, r = 2 and an order-three element g = 1 that
// commutes with them and sits between them in the order
static Algebra sandwich() {
  Algebra A;
  A.name = "pgr";
  A.n = 3;
  Mat w = sparse(3, {{1, 0, 1}, {2, 1, 1}, {0, 2, 1}});
  A.rep = {kron(sparse(3, {{0, 0, 1}}), id(3)), kron(id(3), w), kron(sparse(3, {{1, 1, 1}}), id(3))};
  A.swap = [](int, int) { return std::make_pair(var_number(1), Lin{}); };
  A.prod = [](int i, int j) -> std::optional<Lin> {
    if(i == 1 || j == 1) return std::nullopt;
    if(i == j) return Lin{0, {{i, 1}}};
    return Lin{};
  };
  A.power = [](int i, int p) -> std::optional<Lin> { return i == 1 && p == 3 ? std::optional<Lin>(Lin{1, {}}) : std::nullopt; };
  A.unique = false; // p*g*r is irreducible although it vanishes
  return A;
}
// Heisenberg: [x1, x0] = x2 central; on functions for two values of x2
static Algebra heisenberg() {
  Algebra A;
  A.name = "heis";
  A.n = 3;
  std::vector<Mat> x, p, c;
  for(double h : {1.0, -2.0}) {
    Mat a(TR), b(TR);
    for(int n = 0; n + 1 < TR; ++n) {
      a(n + 1, n) = 1;
      b(n, n + 1) = h * (n + 1);
    }
    x.push_back(a);
    p.push_back(b);
    c.push_back(scaled(h, id(TR)));
  }
  A.rep = {dsum(x), dsum(p), dsum(c)};
  A.swap = [](int i, int j) { return std::make_pair(var_number(1), i == 1 && j == 0 ? Lin{0, {{2, 1}}} : Lin{}); };
  return A;
}
static Algebra exterior() {
  Algebra A;
  A.name = "theta";
  A.n = 3;
  Mat z = sparse(2, {{0, 0, 1}, {1, 1, -1}}), s = sparse(2, {{1, 0, 1}});
  A.rep = {kron(kron(s, id(2)), id(2)), kron(kron(z, s), id(2)), kron(kron(z, z), s)};
  A.swap = [](int, int) { return std::make_pair(var_number(-1), Lin{}); };
  A.prod = [](int i, int j) -> std::optional<Lin> { return i == j ? std::optional<Lin>(Lin{}) : std::nullopt; };
  return A;
}

// A skewed basis: every product and commutator has up to three linear terms
// and a constant. X_m = a_m + sum_k U_mk q_k, det U = 1
static int const SKEW[3][3] = {{1, 1, 0}, {0, 1, 1}, {1, 1, 1}}, SKEW_INV[3][3] = {{0, -1, 1}, {1, 1, -1}, {-1, 0, 1}};
// constant and coefficients with respect to the units -> with respect to X
static Lin skewed(int const (&off)[3], int c, int const (&v)[3]) {
  Lin l;
  for(int m = 0; m < 3; ++m) {
    int x = 0;
    for(int k = 0; k < 3; ++k)
      x += v[k] * SKEW_INV[k][m];
    c -= x * off[m];
    if(x) l.t.push_back({m, x});
  }
  l.c = c;
  return l;
}
static Algebra skew_so3() {
  Algebra A;
  A.name = "skew-so3_";
  A.n = 3;
  static int const off[3] = {0, 0, 0};
  auto eps = [](int i, int j, int k) { return (i - j) * (j - k) * (k - i) / 2; };
  for(int i = 0; i < 3; ++i) {
    Mat m(3);
    for(int u = 0; u < 3; ++u)
      for(int j = 0; j < 3; ++j)
        for(int k = 0; k < 3; ++k)
          m(j, k) += -1.0 * SKEW[i][u] * eps(u, j, k);
    Mat t = kron(m, id(3));
    axpy(t, 1, kron(id(3), m));
    A.rep.push_back(dsum({m, t}));
  }
  A.swap = [=](int i, int j) {
    int v[3] = {0, 0, 0};
    for(int a = 0; a < 3; ++a)
      for(int b = 0; b < 3; ++b)
        for(int k = 0; k < 3; ++k)
          v[k] += SKEW[i][a] * SKEW[j][b] * eps(a, b, k);
    return std::make_pair(var_number(1), skewed(off, 0, v));
  };
  A.conj = [](int i) { return Lin{0, {{i, -1}}}; };
  return A;
}
static Algebra skew_quaternion(bool c_zero) {
  Algebra A;
  A.name = c_zero ? "skew-q(c=0)" : "skew-q(c=1)";
  A.n = 3;
  static int const off[3] = {1, -1, 2};
  Algebra Q = quaternion(true);
  for(int i = 0; i < 3; ++i) {
    Mat m = scaled(off[i], id(2));
    for(int u = 0; u < 3; ++u)
      axpy(m, SKEW[i][u], Q.rep[u]);
    A.rep.push_back(m);
  }
  auto sgn = [](int i, int j) { return (j - i + 3) % 3 == 1 ? 1 : -1; };
  auto prod = [=](int i, int j) {
    int c = off[i] * off[j], v[3] = {0, 0, 0};
    for(int k = 0; k < 3; ++k)
      v[k] += off[i] * SKEW[j][k] + off[j] * SKEW[i][k];
    for(int a = 0; a < 3; ++a)
      for(int b = 0; b < 3; ++b) {
        int x = SKEW[i][a] * SKEW[j][b];
        if(a == b) c -= x;
        else
          v[3 - a - b] += x * sgn(a, b);
      }
    return skewed(off, c, v);
  };
  A.prod = [=](int i, int j) { return std::optional<Lin>(prod(i, j)); };
  A.swap = [=](int i, int j) {
    if(c_zero) return std::make_pair(var_number(0), prod(i, j));
    Lin x = prod(i, j), y = prod(j, i);
    int c = int(double(x.c)) - int(double(y.c)), v[3] = {0, 0, 0};
    for(auto const& t : x.t)
      v[t.first] += int(double(t.second));
    for(auto const& t : y.t)
      v[t.first] -= int(double(t.second));
    Lin l;
    l.c = c;
    for(int m = 0; m < 3; ++m)
      if(v[m]) l.t.push_back({m, v[m]});
    return std::make_pair(var_number(1), l);
  };
  A.conj = [=](int i) { return Lin{2 * off[i], {{i, -1}}}; };
  return A;
}

// commuting x, y with x^3 = 1 + x + 2y, y^3 = 2 - x + 3y: powers turn into sums
// over several generators
static Algebra mixed_powers() {
  Algebra A;
  A.name = "xy";
  A.n = 2;
  std::function<void(Mat&, int, int, int, double)> nf = [&](Mat& m, int col, int a, int b, double c) { // adds c x^a y^b
    if(a >= 3) {
      nf(m, col, a - 3, b, c);
      nf(m, col, a - 2, b, c);
      nf(m, col, a - 3, b + 1, 2 * c);
    } else if(b >= 3) {
      nf(m, col, a, b - 3, 2 * c);
      nf(m, col, a + 1, b - 3, -c);
      nf(m, col, a, b - 2, 3 * c);
    } else
      m(3 * a + b, col) += c;
  };
  Mat x(9), y(9);
  for(int a = 0; a < 3; ++a)
    for(int b = 0; b < 3; ++b) {
      nf(x, 3 * a + b, a + 1, b, 1);
      nf(y, 3 * a + b, a, b + 1, 1);
    }
  A.rep = {x, y};
  A.swap = [](int, int) { return std::make_pair(var_number(1), Lin{}); };
  A.power = [](int i, int p) -> std::optional<Lin> {
    if(p != 3) return std::nullopt;
    return i == 0 ? Lin{1, {{0, 1}, {1, 2}}} : Lin{2, {{0, -1}, {1, 3}}};
  };
  return A;
}

#define ALG_FAMILY(NAME, CTOR, LENQ, LENT, LOSSY)                                                                                                                                                                                                                                                                     \
  FAMILY(NAME) {                                                                                                                                                                                                                                                                                                      \
    static Algebra const A = CTOR;                                                                                                                                                                                                                                                                                    \
    check_tables(A, LOSSY);                                                                                                                                                                                                                                                                                           \
    run(cx, letters(A), A.name, cx.pick(LENQ, LENT), LOSSY, A.unique, bool(A.conj) || A.hermitian);                                                                                                                                                                                                                                  \
  }
ALG_FAMILY(a_clifford, clifford(), 5, 6, 0)
ALG_FAMILY(b_matrix_units2, matrix_units(2), 5, 6, 0)
ALG_FAMILY(b_matrix_units3, matrix_units(3), 3, 4, 0)
ALG_FAMILY(c_gl2, gl2(), 4, 5, 0)
ALG_FAMILY(d_so3_rational, so3(true), 5, 6, 0)
ALG_FAMILY(d_so3_real, so3(false), 5, 6, 0)
ALG_FAMILY(e_quaternion_c0, quaternion(true), 6, 7, 0)
ALG_FAMILY(e_quaternion_cm1, quaternion(false), 6, 7, 0)
ALG_FAMILY(f_qosc_2, qosc(2, "2"), 7, 8, TR)
ALG_FAMILY(f_qosc_half_rational, qosc(var_number(1, 2), "1/2"), 7, 8, TR)
ALG_FAMILY(f_qosc_minus_half_real, qosc(var_number(-0.5), "-0.5"), 7, 8, TR)
ALG_FAMILY(f_qosc_0, qosc(0, "0"), 7, 8, TR)
ALG_FAMILY(f_qosc_0_real, qosc(var_number(0.0), "0.0"), 6, 7, TR)
ALG_FAMILY(f_qosc_0_rational, qosc(var_number(0, 3), "0/3"), 6, 7, TR)
ALG_FAMILY(g_qplane_2, qplane(2, "2"), 7, 8, TR)
ALG_FAMILY(g_qplane_half, qplane(var_number(-1, 2), "-1/2"), 7, 8, TR)
ALG_FAMILY(h_powers, powers(), 6, 7, 0)
ALG_FAMILY(i_projectors, projectors(1, "1"), 5, 6, 0)
ALG_FAMILY(i_projectors_real, projectors(var_number(1.0), "1.0"), 5, 6, 0)
ALG_FAMILY(j_sandwich, sandwich(), 6, 7, 0)
ALG_FAMILY(k_heisenberg, heisenberg(), 6, 7, TR)
ALG_FAMILY(l_exterior, exterior(), 6, 7, 0)
ALG_FAMILY(h_mixed_powers, mixed_powers(), 7, 8, 0)
ALG_FAMILY(r_skew_so3, skew_so3(), 5, 6, 0)
ALG_FAMILY(r_skew_quaternion_c0, skew_quaternion(true), 5, 6, 0)
ALG_FAMILY(r_skew_quaternion_c1, skew_quaternion(false), 5, 6, 0)
ALG_FAMILY(s_self_adjoint3, euclidean(3), 6, 7, 0)
ALG_FAMILY(s_self_adjoint5, euclidean(5), 4, 5, 0)

// Words far longer than any that can be enumerated in full
static void long_words(mc::Ctx& cx, Algebra const& A, int period, std::vector<int> const& lengths) {
  auto L = letters(A);
  cx.bound(mc::str(A.name, ": all words of period 1..", period, " repeated to lengths ", mc::vec_str(lengths), "; folded from the left, from the right, halved and in one piece"));
  for(int len : lengths)
    mc::words(A.n, 1, period, [&](std::vector<int> const& p) {
      std::vector<int> w;
      for(int k = 0; k < len; ++k)
        w.push_back(p[k % p.size()]);
      cx.test([&] { return mc::str(A.name, " ", mc::vec_str(p), " to length ", len); }, [&] { check_word(cx, L, w, 0, A.unique, bool(A.conj) || A.hermitian); });
    });
}
FAMILY(v_long_words) {
  static Algebra const A0 = clifford(), A1 = matrix_units(2), A2 = quaternion(true), A3 = quaternion(false), A4 = powers(), A5 = mixed_powers(), A6 = euclidean(5), A7 = so3(true), A8 = exterior(), A9 = projectors(1, "1"), B0 = skew_quaternion(true);
  std::vector<int> len = cx.thorough() ? std::vector<int>{10, 12, 16, 17, 20, 24, 33} : std::vector<int>{10, 17, 33};
  for(auto const* a : {&A0, &A2, &A3, &A4, &A6, &A8, &A9})
    long_words(cx, *a, 4, len);
  long_words(cx, A1, 4, len);
  long_words(cx, A5, cx.pick(2, 3), len);
  long_words(cx, A7, cx.pick(2, 3), {10});
  long_words(cx, B0, cx.pick(2, 3), {10});
}

// The constants and linear functions that algebras are defined with
FAMILY(t_constants) {
  std::vector<var_number> N{0, 1, -1, 7, -2147483647, {0, 1}, {0, -3}, {1, 1}, {-1, 1}, {1, -1}, {1, 2}, {2, 4}, {-1, 2}, {1, -2}, {7, 1}, {7, 3}, 0.0, -0.0, 1.0, -1.0, 0.5, 7.0, 1e-300, 0.1, 1e300};
  struct Want {
    int kind; // 0 integer, 1 rational, 2 real
    double x;
    int p, q;
  };
  std::vector<Want> W{{0, 0, 0, 0}, {0, 1, 1, 0}, {0, -1, -1, 0}, {0, 7, 7, 0}, {0, -2147483647., -2147483647, 0}, {1, 0, 0, 1}, {1, 0, 0, -3}, {1, 1, 1, 1}, {1, -1, -1, 1}, {1, -1, 1, -1}, {1, 0.5, 1, 2}, {1, 0.5, 2, 4}, {1, -0.5, -1, 2}, {1, -0.5, 1, -2}, {1, 7, 7, 1}, {1, 7 / 3., 7, 3}, {2, 0, 0, 0}, {2, 0, 0, 0}, {2, 1, 0, 0}, {2, -1, 0, 0}, {2, 0.5, 0, 0}, {2, 7, 0, 0}, {2, 1e-300, 0, 0}, {2, 0.1, 0, 0}, {2, 1e300, 0, 0}};
  cx.bound(mc::str("all pairs of ", N.size(), " constants (integers, fractions in and out of lowest terms, reals): stored kind and value, zero test, comparison, text, copies"));
  if(W.size() != N.size()) throw std::logic_error("table");
  for(int i = 0; i < int(N.size()); ++i)
    for(int j = 0; j < int(N.size()); ++j)
      cx.test([&] { return mc::str(i, " ", j, ": ", N[i], " and ", N[j]); },
              [&] {
                var_number a(N[i]), b(0);
                b = N[j];
                auto check = [](var_number const& v, Want const& w) {
                  MC_CHECK(v.number_type == (w.kind == 0 ? var_number::integer : w.kind == 1 ? var_number::rational : var_number::real), "kind of ", v);
                  MC_CHECK(double(v) == w.x, "double of ", v, " expected ", w.x);
                  MC_CHECK(v.is_zero() == (w.x == 0), "is_zero of ", v);
                  if(w.kind == 0) MC_CHECK(int(v) == w.p, "int of ", v);
                  if(w.kind == 1) MC_CHECK(v.numerator() == w.p && v.denominator() == w.q, "fraction ", v);
                  std::ostringstream want, got;
                  if(w.kind == 0) want << w.p;
                  else if(w.kind == 1)
                    want << w.p << "/" << w.q;
                  else
                    want << double(v);
                  got << v;
                  MC_CHECK(got.str() == want.str(), "text ", got.str(), " expected ", want.str());
                };
                check(a, W[i]);
                check(b, W[j]);
                bool eq = W[i].kind == W[j].kind && (W[i].kind == 1 ? W[i].p == W[j].p && W[i].q == W[j].q : W[i].x == W[j].x);
                MC_CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "comparison of ", a, " (kind ", W[i].kind, ") and ", b, " (kind ", W[j].kind, ")");
                // overwriting one leaves the other
                var_number c(a);
                a = b;
                check(c, W[i]);
                check(a, W[j]);
                cx.state(mc::hcomb(i, j));
                cx.trans(2);
                cx.validated(2);
              });
}
template <typename T> struct boxed {
  static T make(int i) { return T(i); }
  static int value(T const& t) { return int(t); }
};
template <> struct boxed<std::unique_ptr<int>> {
  static std::unique_ptr<int> make(int i) { return std::unique_ptr<int>(new int(i)); }
  static int value(std::unique_ptr<int> const& t) { return t ? *t : -1; }
};
using LfModel = std::pair<var_number, std::vector<std::pair<int, var_number>>>;
template <typename T> static void same_lf(linear_function<T> const& f, LfModel const& m, std::string const& what) {
  MC_CHECK(f.const_term == m.first, what, ": constant ", f.const_term, " expected ", m.first);
  MC_CHECK(f.terms.size() == m.second.size(), what, ": ", f.terms.size(), " terms, expected ", m.second.size());
  for(std::size_t i = 0; i < m.second.size(); ++i)
    MC_CHECK(boxed<T>::value(f.terms[i].first) == m.second[i].first && f.terms[i].second == m.second[i].second, what, ": term ", i);
  MC_CHECK(f.vanishing() == (m.first.is_zero() && m.second.empty()), what, ": vanishing()");
}
template <typename T> static void lf_setters(mc::Ctx& cx, char const* name) {
  std::vector<var_number> C{0, var_number(0, 5), 0.0, 2, var_number(1, 2), -0.5};
  using LFT = linear_function<T>;
  int const OPS = 6;
  int L = cx.pick(3, 4);
  cx.bound(mc::str("linear_function<", name, ">: all histories of ", L, " resets (constant; 1, 2 or 3 argument pairs; list of terms; move) over 6 constants of all kinds, from each of 4 constructions"));
  for(int ctor = 0; ctor < 4; ++ctor)
    mc::words(OPS, 0, L, [&](std::vector<int> const& w) {
      cx.test([&] { return mc::str(name, " ctor ", ctor, " then ", mc::vec_str(w)); },
              [&] {
                int fresh = 1;
                LfModel m{var_number(0), {}};
                auto cst = [&] { return C[unsigned(fresh * 5 + ctor + int(w.size())) % C.size()]; };
                auto num = [&] { return C[unsigned(++fresh * 7) % C.size()]; };
                auto list = [&](int n) {
                  std::vector<std::pair<T, var_number>> v;
                  for(int k = 0; k < n; ++k) {
                    var_number q = num();
                    v.emplace_back(boxed<T>::make(fresh), q);
                    m.second.emplace_back(fresh, q);
                  }
                  return v;
                };
                LFT f;
                same_lf(f, m, "default");
                if(ctor == 1) {
                  m.first = cst();
                  f = LFT(m.first);
                }
                if(ctor == 2) {
                  m = {cst(), {{5, 0}, {6, var_number(3, 4)}}};
                  f = LFT(m.first, boxed<T>::make(5), 0, boxed<T>::make(6), var_number(3, 4));
                }
                if(ctor == 3) {
                  m = {cst(), {}};
                  f = LFT(m.first, list(3));
                }
                same_lf(f, m, "constructed");
                for(int op : w) {
                  m = {cst(), {}};
                  ++fresh;
                  if(op == 0) f.set(m.first);
                  if(op >= 1 && op <= 3) {
                    for(int k = 0; k < op; ++k)
                      m.second.emplace_back(10 * fresh + k, C[unsigned(fresh + k) % C.size()]);
                    auto x = [&](int k) { return boxed<T>::make(m.second[k].first); };
                    auto q = [&](int k) { return m.second[k].second; };
                    if(op == 1) f.set(m.first, x(0), q(0));
                    if(op == 2) f.set(m.first, x(0), q(0), x(1), q(1));
                    if(op == 3) f.set(m.first, x(0), q(0), x(1), q(1), x(2), q(2));
                  }
                  if(op == 4) f.set(m.first, list(fresh % 3));
                  if(op == 5) {
                    LFT g(m.first, list(2));
                    f = std::move(g);
                  }
                  same_lf(f, m, mc::str("after step ", op));
                  cx.trans();
                }
                LFT h(std::move(f));
                same_lf(h, m, "move construction");
                uint64_t hsh = mc::hstr(mc::str(name, h.const_term, h.terms.size(), ctor));
                for(int op : w)
                  hsh = mc::hcomb(hsh, op);
                cx.state(hsh);
                cx.validated();
              });
    });
}
FAMILY(t_linear_functions) {
  lf_setters<int>(cx, "int");
  lf_setters<std::unique_ptr<int>>(cx, "unique_ptr");
}

// the order-three element between two orthogonal projectors: removing g^3
// leaves a product that the algebra simplifies
FAMILY(m_power_removal) {
  static Algebra const A = sandwich();
  auto L = letters(A);
  cx.bound("p^a g^(3b) r^c for a,c in 0..2, b in 0..2: equals its value with g^3 replaced by 1");
  mc::tuples({3, 3, 3}, [&](std::vector<int> const& q) {
    cx.test([&] { return mc::vec_str(q); },
            [&] {
              std::vector<GP> w;
              for(int i = 0; i < q[0]; ++i)
                w.push_back(L[0].g);
              for(int i = 0; i < 3 * q[1]; ++i)
                w.push_back(L[1].g);
              for(int i = 0; i < q[2]; ++i)
                w.push_back(L[2].g);
              E e(1.0, monomial<int>(w));
              E expect = q[0] && q[2] ? E() : (q[0] ? E(1.0, monomial<int>{L[0].g}) : (q[2] ? E(1.0, monomial<int>{L[2].g}) : E(1.0)));
              MC_CHECK(e == expect, "got ", e, " expected ", expect);
              cx.state(mc::hstr(mc::vec_str(q)));
              cx.trans();
              cx.validated();
            });
  });
}

// Mixtures with predefined and other user-defined algebras
FAMILY(n_mixed_clifford_fermion) {
  static Algebra A = clifford();
  A.n = 2;
  auto L = tensor(letters(A), builtin_fermion());
  run(cx, L, "gamma x fermion", cx.pick(5, 6), 0, true, true);
}
FAMILY(o_mixed_units_spin) {
  static Algebra A = matrix_units(2);
  auto L = tensor(letters(A), builtin_spin());
  run(cx, L, "E x spin", cx.pick(4, 5), 0, true, true);
}
FAMILY(p_mixed_two_user) {
  static Algebra A = projectors(1, "1"), B = quaternion(true);
  B.id = 7;
  A.n = 2;
  auto L = tensor(letters(A), letters(B));
  run(cx, L, "P x q", cx.pick(4, 5), 0, true, true);
}
FAMILY(q_mixed_three) {
  static Algebra A = exterior(), B = so3(true);
  A.n = 2;
  B.id = 1;
  B.n = 3;
  auto L = tensor(tensor(letters(A), letters(B)), builtin_fermion());
  run(cx, L, "theta x T x fermion", cx.pick(3, 4), 0, true, false);
}
