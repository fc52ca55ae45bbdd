// C05: expressions are independent values; aliasing arguments are harmless
#include "gauss.hpp"
#include "refpoly.hpp"
using namespace libcommute;
using namespace ref;
using CD = std::complex<double>;
using ED = expression<double, int>;
using EC = expression<CD, int>;

template <typename S> static expression<S, int> raw(RPoly const& p) {
  expression<S, int> e;
  for(auto const& t : p) {
    std::vector<std::shared_ptr<const generator<int>>> gens;
    for(auto const& g : t.first)
      gens.push_back(make_gen(g));
    e.get_monomials().emplace(monomial<int>(gens), from_c<S>(t.second));
  }
  return e;
}

struct M {
  expression<double, int> A, B;
  expression<CD, int> C;
  RPoly a, b, c;
};
struct Op {
  std::string name;
  std::function<void(M&)> f;
};
static CD first(RPoly const& p) { return p.begin()->second; }
static CD last(RPoly const& p) { return p.rbegin()->second; }

static std::vector<Op> ops() {
  std::vector<Op> o;
  auto add = [&](std::string n, std::function<void(M&)> f) { o.push_back({n, f}); };
#define OP(code, refcode) add(#code, [](M& m) { auto &A = m.A, &B = m.B; auto& C = m.C; auto &a = m.a, &b = m.b, &c = m.c; (void)A, (void)B, (void)C, (void)a, (void)b, (void)c; code; refcode; })
  // self arguments
  OP(A += A, a = rscale(a, 2));
  OP(A -= A, a.clear());
  OP(A *= A, a = rmul(a, a));
  OP(A = A + A, a = rscale(a, 2));
  OP(A = A - A, a.clear());
  OP(A = A * A, a = rmul(a, a));
  OP(A = *&A, );
  OP(A = conj(A), a = rconj(a));
  OP(A = A + hc, a = rsum(a, rconj(a)));
  OP(A = A - hc, a = rsum(a, rconj(a), -1));
  OP(A = -A, a = rscale(a, -1));
  OP(C += C, c = rscale(c, 2));
  OP(C -= C, c.clear());
  OP(C *= C, c = rmul(c, c));
  OP(C = C - C, c.clear());
  // other registers
  OP(A = B, a = b);
  OP(B = A, b = a);
  OP(A += B, a = rsum(a, b));
  OP(A -= B, a = rsum(a, b, -1));
  OP(A *= B, a = rmul(a, b));
  OP(B -= A, b = rsum(b, a, -1));
  OP(B *= A, b = rmul(b, a));
  OP(A = A * B, a = rmul(a, b));
  OP(A = B - A, a = rsum(b, a, -1));
  OP(std::swap(A, B), std::swap(a, b));
  OP(C = A, c = a);
  OP(C = EC(A), c = a);
  OP(C += A, c = rsum(c, a));
  OP(C -= A, c = rsum(c, a, -1));
  OP(C = A * C, c = rmul(a, c));
  OP(C *= A, c = rmul(c, a));
  OP(C = C + A, c = rsum(c, a));
  OP(A.clear(), a.clear());
  // moves; the moved-from register gets a new value
  OP(A = std::move(B); B = ED(3.0), a = b; b = rconst(3));
  OP(ED t(std::move(A)); A = B; B = t, std::swap(a, b));
  OP(EC t(std::move(A)); A = B; C = t, c = a; a = b);
  // its own coefficients
  OP(if(A.size()) A += A.get_monomials().begin()->second, if(a.size()) a = rsum(a, rconst(first(a))));
  OP(if(A.size()) A -= A.get_monomials().begin()->second, if(a.size()) a = rsum(a, rconst(first(a)), -1));
  OP(if(A.size()) A *= A.get_monomials().begin()->second, if(a.size()) a = rscale(a, first(a)));
  OP(if(A.size()) A += (*A.begin()).coeff, if(a.size()) a = rsum(a, rconst(first(a))));
  OP(if(A.size()) A *= (*A.begin()).coeff, if(a.size()) a = rscale(a, first(a)));
  OP(if(A.size()) A *= A.get_monomials().rbegin()->second, if(a.size()) a = rscale(a, last(a)));
  OP(if(A.size()) A -= A.get_monomials().rbegin()->second, if(a.size()) a = rsum(a, rconst(last(a)), -1));
  OP(if(A.size()) A = A * A.get_monomials().begin()->second, if(a.size()) a = rscale(a, first(a)));
  OP(if(A.size()) A = A.get_monomials().rbegin()->second * A, if(a.size()) a = rscale(a, last(a)));
  OP(if(A.size()) A = A.get_monomials().begin()->second - A, if(a.size()) a = rsum(rconst(first(a)), a, -1));
  OP(if(A.size()) B *= A.get_monomials().begin()->second, if(a.size()) b = rscale(b, first(a)));
  OP(if(C.size()) C *= C.get_monomials().begin()->second, if(c.size()) c = rscale(c, first(c)));
  OP(if(C.size()) C *= C.get_monomials().rbegin()->second, if(c.size()) c = rscale(c, last(c)));
  OP(if(C.size()) C += C.get_monomials().begin()->second, if(c.size()) c = rsum(c, rconst(first(c))));
  OP(if(C.size()) C -= C.get_monomials().begin()->second, if(c.size()) c = rsum(c, rconst(first(c)), -1));
  // its own monomials
  OP(if(A.size()) A += ED(A.get_monomials().rbegin()->second, A.get_monomials().rbegin()->first), if(a.size()) radd(a, a.rbegin()->first, last(a)));
  OP(if(A.size()) A -= ED(A.get_monomials().begin()->second, A.get_monomials().begin()->first), if(a.size()) a.erase(a.begin()));
  OP(if(A.size()) A = ED(A.get_monomials().rbegin()->second, A.get_monomials().rbegin()->first), if(a.size()) a = RPoly{*a.rbegin()});
  return o;
}

static bool bounded(RPoly const& p) {
  if(p.size() > 14) return false;
  for(auto const& t : p)
    if(t.first.size() > 6 || std::abs(t.second) > 1e6) return false;
  return true;
}
static void check_all(M const& m, std::string const& h) {
  check_equal(m.A, m.a, "A after " + h);
  check_equal(m.B, m.b, "B after " + h);
  check_equal(m.C, m.c, "C after " + h);
}
static void dfs(mc::Ctx& cx, std::vector<Op> const& O, M const& m, int depth, std::string const& hist, std::map<uint64_t, int>& seen) {
  if(depth == 0 || !bounded(m.a) || !bounded(m.b) || !bounded(m.c)) return;
  uint64_t h = mc::hcomb(mc::hcomb(hash_r(m.a), hash_r(m.b)), hash_r(m.c));
  auto it = seen.find(h);
  if(it != seen.end() && it->second >= depth) return;
  seen[h] = depth;
  cx.state(h);
  for(auto const& op : O) {
    M n = m;
    op.f(n);
    cx.trans();
    check_all(n, hist + op.name);
    check_equal(m.A, m.a, "copied-from register after " + hist + op.name);
    check_equal(m.C, m.c, "copied-from register after " + hist + op.name);
    cx.validated();
    dfs(cx, O, n, depth - 1, hist + op.name + "; ", seen);
  }
}
FAMILY(registers) {
  auto O = ops();
  RPoly z, one = rconst(1), two = rconst(2), mone = rconst(-1);
  RPoly c0 = rword({F(0, 0)}), n = rword({F(1, 0), F(0, 0)}), hop = rword({F(1, 0), F(0, 1)}, 2), a = rword({B(0, 0)}), ad = rword({B(1, 0)}), sp = rword({Sg(0, 2, 0)}), sz = rword({Sg(2, 2, 0)});
  std::vector<std::array<RPoly, 3>> init = {
      {rsum(two, n), c0, rsum(rword({F(0, 1)}, C(0, 1)), rconst(2))},
      {rsum(rsum(rconst(3), hop), n, -1), rsum(a, one), rsum(rscale(ad, C(1, 1)), rconst(C(0, 2)))},
      {rsum(sp, sz, 2), rsum(mone, sz), rscale(sp, C(0, -1))},
      {z, two, one},
      {rsum(rsum(c0, hop), ad, -2), n, rsum(n, c0, C(0, 1))},
  };
  int depth = cx.pick(3, 4);
  cx.bound(mc::str("all histories of ", depth, " operations over ", O.size(), " operations on registers A,B (double), C (complex), ", init.size(), " initial states"));
  for(auto const& in : init)
    for(auto const& op : O)
      cx.test([&] { return op.name + " from A=" + rstr(in[0]) + " B=" + rstr(in[1]) + " C=" + rstr(in[2]); },
              [&] {
                M m;
                m.a = in[0], m.b = in[1], m.c = in[2];
                m.A = raw<double>(m.a), m.B = raw<double>(m.b), m.C = raw<CD>(m.c);
                op.f(m);
                check_all(m, op.name);
                std::map<uint64_t, int> seen;
                dfs(cx, O, m, depth - 1, op.name + "; ", seen);
              });
}

// Values survive the destruction of what they were computed from
FAMILY(lifetimes) {
  std::vector<std::vector<G>> w = {{F(1, 0), F(0, 1)}, {B(1, 0), B(0, 0), B(0, 0)}, {Sg(0, 2, 0), F(0, 0)}, {Sg(1, 3, 0), Sg(0, 3, 0)}, {Sg(0, 2, 0), Sg(1, 2, 0)}};
  cx.bound("all pairs of 5 words: copies, converted copies, monomials, generators and iterators outlive their origin");
  for(auto const& x : w)
    for(auto const& y : w)
      cx.test([&] { return word_str(x) + " / " + word_str(y); },
              [&] {
                RPoly r = rsum(rmul(rword(x), rword(y)), rword(x));
                std::unique_ptr<expression<double, int>> e(new expression<double, int>(raw<double>(rword(x)) * raw<double>(rword(y)) + raw<double>(rword(x))));
                expression<double, int> copy(*e);
                expression<CD, int> conv(*e);
                expression<double, int> asg;
                asg = *e;
                auto adj = conj(*e);
                std::vector<monomial<int>> mons;
                for(auto const& m : e->get_monomials())
                  mons.push_back(m.first);
                std::vector<std::shared_ptr<const generator<int>>> gens;
                for(auto const& m : *e)
                  for(auto const& g : m.monomial)
                    gens.push_back(g.shared_from_this());
                e->clear();
                e.reset();
                check_equal(copy, r, "copy");
                check_equal(conv, r, "converted copy");
                check_equal(asg, r, "assigned");
                check_equal(adj, rconj(r), "conj");
                std::size_t i = 0, k = 0;
                for(auto const& t : r) {
                  MC_CHECK(decode(mons.at(i), int_site()) == t.first, "monomial copy");
                  ++i;
                  for(auto const& g : t.first) {
                    MC_CHECK(decode(*gens.at(k), int_site()) == g, "generator");
                    ++k;
                  }
                }
                cx.state(hash_r(r));
                cx.trans(6);
                cx.validated(6);
              });
}

// Products that need constants an integer cannot hold
FAMILY(throwing_products) {
  std::vector<std::vector<G>> mons = {{}, {Sg(0, 2, 0)}, {Sg(1, 2, 0)}, {Sg(2, 2, 0)}, {Sg(0, 2, 1)}, {F(0, 0)}, {F(1, 0)}};
  std::vector<RPoly> P;
  for(std::size_t i = 0; i < mons.size(); ++i)
    for(C c : {1, 2}) {
      P.push_back(rword(mons[i], c));
      for(std::size_t j = i + 1; j < mons.size(); ++j)
        for(C d : {1, -2})
          P.push_back(rsum(rword(mons[i], c), rword(mons[j], d)));
    }
  cx.bound(mc::str("all ordered pairs of ", P.size(), " integer polynomials with spin-1/2 operators"));
  for(auto const& a : P)
    for(auto const& b : P)
      cx.test([&] { return "a = " + rstr(a) + ", b = " + rstr(b); },
              [&] {
                auto A = raw<int>(a), B = raw<int>(b);
                RPoly r = rmul(a, b);
                bool integral = true;
                for(auto const& t : r)
                  if(std::floor(t.second.real()) != t.second.real()) integral = false;
                bool t1 = false, t2 = false;
                try {
                  auto P = A * B;
                  check_equal(P, r, "a*b");
                } catch(std::runtime_error const&) {
                  t1 = true;
                }
                check_equal(A, a, "left operand");
                check_equal(B, b, "right operand");
                auto T = A;
                try {
                  T *= B;
                  check_equal(T, r, "a*=b");
                } catch(std::runtime_error const&) {
                  t2 = true;
                  check_equal(T, a, "left operand of *= that threw");
                }
                check_equal(B, b, "right operand");
                MC_CHECK(t1 == t2, "a*b and a*=b disagree about throwing");
                MC_CHECK(integral || t1, "unrepresentable product did not throw");
                try {
                  T = A;
                  T *= T;
                } catch(std::runtime_error const&) {
                  check_equal(T, a, "left operand of a*=a that threw");
                }
                cx.state(hash_r(r));
                cx.trans(3);
                cx.validated(3);
              });
}

// Monomials as sequences: two registers edited in every way
FAMILY(monomial_registers) {
  using MN = monomial<int>;
  using Seq = std::vector<G>;
  struct R {
    MN X, Y;
    Seq x, y;
  };
  struct Step {
    std::string name;
    std::function<bool(R&)> f; // false: does not apply here
  };
  auto cat = [](Seq a, Seq const& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
  };
  std::vector<Step> O;
  auto add = [&](std::string n, std::function<bool(R&)> f) { O.push_back({n, f}); };
  add("X.append(X)", [=](R& r) { return r.X.append(r.X), r.x = cat(r.x, r.x), true; });
  add("X.append(Y)", [=](R& r) { return r.X.append(r.Y), r.x = cat(r.x, r.y), true; });
  add("Y.append(X)", [=](R& r) { return r.Y.append(r.X), r.y = cat(r.y, r.x), true; });
  add("X.append(gen)", [=](R& r) { return r.X.append(*make_gen(B(1, 0))), r.x.push_back(B(1, 0)), true; });
  add("Y.append(gen)", [=](R& r) { return r.Y.append(*make_gen(F(0, 2))), r.y.push_back(F(0, 2)), true; });
  add("X.append(X[0])", [=](R& r) {
    if(r.x.empty()) return false;
    r.X.append(r.X[0]);
    r.x.push_back(G(r.x[0]));
    return true;
  });
  add("X.append(Y[last])", [=](R& r) {
    if(r.y.empty()) return false;
    r.X.append(r.Y[r.y.size() - 1]);
    r.x.push_back(r.y.back());
    return true;
  });
  add("X.append(tail of Y)", [=](R& r) {
    if(r.y.empty()) return false;
    r.X.append(std::make_pair(r.Y.begin() + 1, r.Y.end()));
    r.x = cat(r.x, Seq(r.y.begin() + 1, r.y.end()));
    return true;
  });
  add("X = concatenate(X, Y)", [=](R& r) { return r.X = concatenate(r.X, r.Y), r.x = cat(r.x, r.y), true; });
  add("Y = concatenate(X, X)", [=](R& r) { return r.Y = concatenate(r.X, r.X), r.y = cat(r.x, r.x), true; });
  add("X = concatenate(tail of X, X[0], Y)", [=](R& r) {
    if(r.x.empty()) return false;
    r.X = concatenate(std::make_pair(r.X.begin() + 1, r.X.end()), r.X[0], r.Y);
    r.x = cat(cat(Seq(r.x.begin() + 1, r.x.end()), {r.x[0]}), r.y);
    return true;
  });
  add("X = concatenate(head of X, gen, tail of Y)", [=](R& r) {
    if(r.x.empty() || r.y.empty()) return false;
    r.X = concatenate(std::make_pair(r.X.begin(), r.X.end() - 1), *make_gen(Sg(0, 3, 1)), std::make_pair(r.Y.begin() + 1, r.Y.end()));
    r.x = cat(cat(Seq(r.x.begin(), r.x.end() - 1), {Sg(0, 3, 1)}), Seq(r.y.begin() + 1, r.y.end()));
    return true;
  });
  add("X = concatenate(X)", [=](R& r) { return r.X = concatenate(r.X), true; });
  add("X = X", [=](R& r) { return r.X = *&r.X, true; });
  add("Y = X", [=](R& r) { return r.Y = r.X, r.y = r.x, true; });
  add("X = move(Y); Y = {}", [=](R& r) { return r.X = std::move(r.Y), r.Y = MN{}, r.x = r.y, r.y.clear(), true; });
  add("swap(X, Y)", [=](R& r) { return std::swap(r.X, r.Y), std::swap(r.x, r.y), true; });
  add("X.swap_generators(0, last)", [=](R& r) {
    if(r.x.empty()) return false;
    r.X.swap_generators(0, r.x.size() - 1);
    std::swap(r.x.front(), r.x.back());
    return true;
  });
  add("Y.swap_generators(0, 1)", [=](R& r) {
    if(r.y.size() < 2) return false;
    r.Y.swap_generators(0, 1);
    std::swap(r.y[0], r.y[1]);
    return true;
  });
  int depth = cx.pick(4, 5);
  std::vector<std::pair<Seq, Seq>> init{{{}, {}}, {{F(1, 0)}, {F(0, 1), B(0, 0)}}, {{F(1, 0), F(0, 1), Sg(0, 2, 0)}, {F(1, 0)}}, {{B(1, 0), B(1, 0)}, {B(1, 0), B(1, 0)}}};
  cx.bound(mc::str("all histories of ", depth, " operations out of ", O.size(), " on two monomials (appending, concatenating, swapping, assigning, moving; itself and its own generators as arguments; up to 12 generators), ", init.size(), " initial pairs"));
  auto make = [](Seq const& w) {
    MN m;
    for(auto const& g : w)
      m.append(*make_gen(g));
    return m;
  };
  auto look = [](MN const& m, Seq const& s, std::string const& what) {
    MC_CHECK(m.size() == s.size() && m.empty() == s.empty() && std::size_t(m.end() - m.begin()) == s.size(), what, ": size() = ", m.size(), " expected ", s.size());
    MC_CHECK(decode(m, int_site()) == s, what, ": ", m, " expected ", word_str(s));
  };
  for(auto const& in : init)
    for(std::size_t i = 0; i < O.size(); ++i)
      for(std::size_t j = 0; j < O.size(); ++j)
        cx.test([&] { return mc::str("X = ", word_str(in.first), ", Y = ", word_str(in.second), "; ", O[i].name, "; ", O[j].name); },
                [&] {
                  std::function<void(R const&, int, std::string const&)> rec = [&](R const& r, int d, std::string const& h) {
                    for(std::size_t k = 0; k < O.size(); ++k) {
                      if(d == 0 && k != i) continue;
                      if(d == 1 && k != j) continue;
                      R n = r;
                      if(!O[k].f(n)) continue;
                      std::string w = h + O[k].name + "; ";
                      look(n.X, n.x, "X after " + w);
                      look(n.Y, n.y, "Y after " + w);
                      look(r.X, r.x, "the copy of X after " + w);
                      look(r.Y, r.y, "the copy of Y after " + w);
                      MC_CHECK((n.X == n.Y) == (n.x == n.y) && (n.X != n.Y) == (n.x != n.y), "comparison after ", w);
                      cx.trans();
                      uint64_t hs = 5;
                      for(auto const& q : {n.x, n.y}) {
                        for(auto const& g : q)
                          hs = mc::hcomb(hs, mc::hstr(word_str({g})));
                        hs = mc::hcomb(hs, 77);
                      }
                      cx.state(hs);
                      if(d + 1 < depth && n.x.size() <= 12 && n.y.size() <= 12) rec(n, d + 1, w);
                      else
                        cx.validated();
                    }
                  };
                  rec(R{make(in.first), make(in.second), in.first, in.second}, 0, "");
                });
}

// --- the same operations on values of many terms ---------------------------------------
static RPoly many(int n, int step, C c0, C c1) {
  RPoly p;
  for(int i = 0; i < n; ++i) {
    int k = i * step;
    std::vector<G> w;
    switch(k % 4) {
    case 0: w = {F(1, k / 4)}; break;
    case 1: w = {F(1, k / 4), F(0, k / 3)}; break;
    case 2: w = {B(1, k / 4), B(0, k / 3)}; break;
    default: w = {Sg(k / 4 % 3, 2, k / 4)};
    }
    radd(p, w, c0 + double(i % 7) * c1);
  }
  return p;
}
FAMILY(large_values) {
  std::vector<int> ns = cx.thorough() ? std::vector<int>{7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1000} : std::vector<int>{8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 257};
  auto O = ops();
  cx.bound(mc::str("registers A, B, C of n, m and n terms (n, m from ", mc::vec_str(ns), "): every operation (products up to 33 terms), and every pair of operations up to 17 terms; copies and converted copies taken before are unaffected"));
  auto is_product = [](std::string const& s) { return s.find("*= A,") != std::string::npos || s == "A *= A" || s == "A = A * A" || s == "C *= C" || s == "A *= B" || s == "B *= A" || s == "A = A * B" || s == "C = A * C" || s == "C *= A"; };
  for(int n : ns)
    for(int m : {n, ns[0], ns[ns.size() / 2]})
      for(int step = 1; step <= 2; ++step)
        for(auto const& op : O) {
          if(is_product(op.name) && (n > 33 || m > 33)) continue;
          cx.test([&] { return mc::str(op.name, " with ", n, " and ", m, " terms, step ", step); },
                  [&] {
                    M s;
                    s.a = many(n, 1, 2, 1), s.b = many(m, step, -2, step == 1 ? -1 : 3), s.c = many(n, step, C(0, 1), C(1, 0));
                    s.A = raw<double>(s.a), s.B = raw<double>(s.b), s.C = raw<CD>(s.c);
                    M t = s;
                    EC conv(s.A);
                    auto it = s.A.get_monomials().begin();
                    monomial<int> first_monomial = it->first;
                    op.f(t);
                    check_all(t, op.name);
                    check_all(s, "(copied from) " + op.name);
                    check_equal(conv, s.a, "converted copy");
                    MC_CHECK(s.A.get_monomials().begin()->first == first_monomial, "monomial of the copied-from register");
                    cx.state(mc::hcomb(mc::hcomb(hash_r(t.a), hash_r(t.b)), hash_r(t.c)));
                    cx.trans();
                    cx.validated();
                    if(n > 17 || m > 17 || is_product(op.name)) return;
                    for(auto const& op2 : O) {
                      if(is_product(op2.name)) continue;
                      M u = t;
                      op2.f(u);
                      check_all(u, op.name + "; " + op2.name);
                      check_all(t, "(copied from) " + op.name + "; " + op2.name);
                      cx.trans();
                      cx.validated();
                    }
                  });
        }
}
