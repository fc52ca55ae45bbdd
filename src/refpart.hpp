// Reference partitions: exact matrices of operators from refop, blocks by
// plain label propagation.
#pragma once
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "refop.hpp"
#include <libcommute/loperator/space_partition.hpp>
#include <set>

namespace refpart {
using namespace refop;
using LD = loperator<double, fermion, boson, spin>;
using LC = loperator<cd, fermion, boson, spin>;

inline Op F(int d, int i) { return {0, d, 2, i}; }
inline Op B(int d, int i) { return {1, d, 0, i}; }
inline Op S(int c, uint64_t m, int i) { return {2, c, m, i}; }
inline std::vector<Op> generators(std::vector<ES> const& set) {
  std::vector<Op> g;
  for(auto const& e : set) {
    if(e.kind == 0) g.push_back(F(1, e.idx)), g.push_back(F(0, e.idx));
    if(e.kind == 1) g.push_back(B(1, e.idx)), g.push_back(B(0, e.idx));
    if(e.kind == 2) g.push_back(S(0, e.par, e.idx)), g.push_back(S(1, e.par, e.idx)), g.push_back(S(2, e.par, e.idx));
  }
  return g;
}
inline Op dag(Op o) {
  if(o.kind < 2) o.comp = 1 - o.comp;
  else if(o.comp < 2)
    o.comp = 1 - o.comp;
  return o;
}
inline Word dag(Word const& w) {
  Word r;
  for(std::size_t i = w.size(); i-- > 0;)
    r.push_back(dag(w[i]));
  return r;
}
// Expressions keep creation operators in front, which matters for truncated
// bosons; words in another order stand for a different matrix
inline bool boson_ordered(Word const& w) {
  for(std::size_t i = 0; i < w.size(); ++i)
    for(std::size_t j = i + 1; j < w.size(); ++j)
      if(w[i].kind == 1 && w[j].kind == 1 && w[i].idx == w[j].idx && w[i].comp == 0 && w[j].comp == 1) return false;
  return true;
}
inline Sum dag(Sum const& s) {
  Sum r;
  for(auto const& t : s)
    r.emplace_back(std::conj(t.first), dag(t.second));
  return r;
}
inline Sum operator+(Sum a, Sum const& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
inline Sum operator*(cd c, Sum s) {
  for(auto& t : s)
    t.first *= c;
  return s;
}
inline Sum operator*(Sum const& a, Sum const& b) {
  Sum r;
  for(auto const& x : a)
    for(auto const& y : b) {
      Word w = x.second;
      w.insert(w.end(), y.second.begin(), y.second.end());
      r.emplace_back(x.first * y.first, w);
    }
  return r;
}
inline double to_scalar(cd c, double*) { return c.real(); }
inline cd to_scalar(cd c, cd*) { return c; }
template <typename Sc> expression<Sc, int> expr(Sum const& s) {
  expression<Sc, int> e;
  for(auto const& t : s)
    e += to_expr<Sc>(t.second) * to_scalar(t.first, static_cast<Sc*>(nullptr));
  return e;
}
template <typename Sc> loperator<Sc, fermion, boson, spin> oper(Sum const& s, HS const& hs) { return {expr<Sc>(s), hs}; }

// matrix[(out, in)]
using Mat = std::map<std::pair<uint64_t, uint64_t>, cd>;
inline Mat matrix(Layout const& l, Sum const& s, std::vector<uint64_t> const& st, double zero = 1e-9) {
  Mat m;
  for(auto in : st)
    for(auto const& p : column(l, s, in))
      if(std::abs(p.second) > zero) m[{p.first, in}] = p.second;
  return m;
}
// label of a state: smallest state of its block
using Labels = std::map<uint64_t, uint64_t>;
inline Labels singletons(std::vector<uint64_t> const& st) {
  Labels l;
  for(auto s : st)
    l[s] = s;
  return l;
}
inline bool join(Labels& l, uint64_t a, uint64_t b) {
  uint64_t x = l.at(a), y = l.at(b);
  if(x == y) return false;
  if(x > y) std::swap(x, y);
  for(auto& p : l)
    if(p.second == y) p.second = x;
  return true;
}
inline Labels blocks(Mat const& m, std::vector<uint64_t> const& st) {
  Labels l = singletons(st);
  for(auto const& e : m)
    join(l, e.first.first, e.first.second);
  return l;
}
inline std::size_t count(Labels const& l) {
  std::set<uint64_t> s;
  for(auto const& p : l)
    s.insert(p.second);
  return s.size();
}
inline uint64_t hash(Labels const& l) {
  uint64_t h = 23;
  for(auto const& p : l)
    h = mc::hcomb(h, mc::hcomb(p.first, p.second));
  return h;
}
inline std::string lab_str(Labels const& l) {
  std::map<uint64_t, std::vector<uint64_t>> b;
  for(auto const& p : l)
    b[p.second].push_back(p.first);
  std::string s;
  for(auto const& x : b)
    s += mc::vec_str(x.second);
  return s;
}
// All that can be seen of a partition against the reference labels
template <typename H> void check_partition(space_partition<H> const& sp, Labels const& lab, std::string const& what) {
  std::size_t n = count(lab);
  MC_CHECK(sp.n_subspaces() == n, what, ": n_subspaces() = ", sp.n_subspaces(), " expected ", n, " ", lab_str(lab));
  MC_CHECK(sp.dim() == lab.size(), what, ": dim() = ", sp.dim());
  std::map<uint64_t, uint64_t> num; // label -> number
  std::set<uint64_t> used;
  for(auto const& p : lab) {
    uint64_t k = sp[p.first];
    MC_CHECK(k < n, what, ": state ", p.first, " is in subspace ", k, " of ", n);
    auto it = num.emplace(p.second, k).first;
    MC_CHECK(it->second == k, what, ": connected states ", p.first, " and ", p.second, " are in subspaces ", k, " and ", it->second, ", expected ", lab_str(lab));
    used.insert(k);
  }
  MC_CHECK(used.size() == n && num.size() == n, what, ": unconnected states share a subspace, expected ", lab_str(lab));
  std::set<uint64_t> seen;
  foreach(sp, [&](sv_index_type s, sv_index_type k) {
    MC_CHECK(lab.count(s) && seen.insert(s).second, what, ": foreach() visits ", s);
    MC_CHECK(k == num.at(lab.at(s)), what, ": foreach() puts state ", s, " into ", k, ", operator[] into ", num.at(lab.at(s)));
  });
  MC_CHECK(seen.size() == lab.size(), what, ": foreach() visits ", seen.size(), " states");
  std::map<uint64_t, std::set<uint64_t>> ref;
  for(auto const& p : lab)
    ref[num.at(p.second)].insert(p.first);
  auto all = sp.subspace_bases();
  MC_CHECK(all.size() == n, what, ": subspace_bases() has ", all.size());
  for(std::size_t k = 0; k < n; ++k) {
    // each call goes through the whole space: of very many subspaces, ask for
    // those next to multiples of 256
    if(n > 600 && (k + 2) % 256 > 4 && k + 3 < n) {
      MC_CHECK(all[k].size() == ref[k].size() && std::set<uint64_t>(all[k].begin(), all[k].end()) == ref[k], what, ": subspace_bases()[", k, "] = ", mc::vec_str(all[k]));
      continue;
    }
    auto b = sp.subspace_basis(k);
    MC_CHECK(b.size() == ref[k].size() && std::set<uint64_t>(b.begin(), b.end()) == ref[k], what, ": subspace_basis(", k, ") = ", mc::vec_str(b));
    MC_CHECK(all[k] == b, what, ": subspace_bases()[", k, "] = ", mc::vec_str(all[k]), " but subspace_basis() = ", mc::vec_str(b));
  }
  for(std::size_t k : {n, n + 1, ~std::size_t(0)})
    mc::expect_throw<std::runtime_error>([&] { (void)sp.subspace_basis(k); }, what + ": subspace_basis() of a subspace that does not exist");
}
template <typename Sc> void check_elements(matrix_elements_map<Sc> const& me, Mat const& m, std::string const& what, bool relative = false) {
  double floor = 0;
  for(auto const& p : m)
    floor = std::max(floor, 1e-15 * std::abs(p.second));
  for(auto const& p : m) {
    auto it = me.find(p.first);
    MC_CHECK(it != me.end(), what, ": element <", p.first.first, "|", p.first.second, "> = ", p.second, " is missing");
    MC_CHECK(relative ? std::abs(cd(it->second) - p.second) <= 1e-9 * std::abs(p.second) + floor : mc::close(cd(it->second), p.second), what, ": element <", p.first.first, "|", p.first.second, "> = ", cd(it->second), " expected ", p.second);
  }
  for(auto const& p : me)
    MC_CHECK(m.count(p.first), what, ": element <", p.first.first, "|", p.first.second, "> = ", cd(p.second), " should vanish");
}
// Spaces and Hamiltonians with very many invariant subspaces
struct Many {
  std::string name;
  std::vector<ES> set;
  Sum h;
};
inline std::vector<Many> const& many_subspaces(bool thorough) {
  static std::vector<Many> small, big;
  auto make = [](int extra) {
    std::vector<Many> r;
    auto modes = [](int n) {
      std::vector<ES> s;
      for(int i = 0; i < n; ++i)
        s.push_back({0, 2, i});
      return s;
    };
    auto dens = [](int n) {
      Sum h;
      for(int i = 0; i < n; ++i)
        h.emplace_back(0.5 + i, Word{F(1, i), F(0, i)});
      return h;
    };
    for(int n : {8, 9, 11, 11 + extra}) {
      if(n == 11 + extra && !extra) continue;
      r.push_back({mc::str(n, " modes, diagonal"), modes(n), dens(n)});
      Sum hop{{1, {F(1, 0), F(0, 1)}}};
      r.push_back({mc::str(n, " modes, one bond"), modes(n), dens(n) + hop + dag(hop)});
      Sum pair{{1, {F(1, 0), F(1, 1), F(0, n - 2), F(0, n - 1)}}};
      r.push_back({mc::str(n, " modes, one pair hop"), modes(n), dens(n) + pair + dag(pair)});
      Sum loc{{1, {F(1, n - 1)}}};
      r.push_back({mc::str(n, " modes, one mode mixed"), modes(n), dens(n) + loc + dag(loc)});
    }
    for(uint64_t d : {200, 300, 1100})
      for(int mixed = 0; mixed < 2; ++mixed) {
        std::vector<ES> set{{1, d, 0}, {0, 2, 0}};
        Sum h{{1, {B(1, 0), B(0, 0)}}};
        Sum t{{1, {F(1, 0)}}};
        if(mixed) h = h + t + dag(t);
        r.push_back({mc::str("boson of dimension ", d, mixed ? " and a mixed mode" : " and a mode"), set, h});
      }
    {
      std::vector<ES> set{{1, 3, 0}, {2, 3, 0}, {2, 4, 0}, {2, 2, 0}, {0, 2, 0}, {0, 2, 1}, {0, 2, 2}};
      Sum h{{1, {B(1, 0), B(0, 0)}}, {2, {S(2, 3, 0)}}, {3, {S(2, 4, 0), S(2, 2, 0)}}};
      r.push_back({"bosons, spins and modes, diagonal", set, h});
      Sum x{{1, {S(0, 4, 0), S(1, 2, 0)}}};
      r.push_back({"bosons, spins and modes, spin exchange", set, h + x + dag(x)});
    }
    return r;
  };
  auto& v = thorough ? big : small;
  if(v.empty()) v = make(thorough ? 1 : 0);
  return v;
}
inline std::vector<Sum> probes(std::vector<ES> const& set) {
  std::vector<Sum> p;
  auto g = generators(set);
  for(auto const& o : g)
    if(o.comp != 1 || o.kind < 2) p.push_back(Sum{{1, {o}}});
  Op a = g.front(), b = g.back();
  p.push_back(Sum{{1, {a, b}}});
  p.push_back(Sum{{1, {dag(a)}}, {2, {b}}});
  p.push_back(Sum{{1, {}}});
  p.push_back(Sum{});
  return p;
}
// A Hilbert space of a user: states in any order
struct ListSpace {
  std::vector<sv_index_type> list;
  sv_index_type vec_size;
  sv_index_type dim() const { return list.size(); }
};
inline sv_index_type get_vec_size(ListSpace const& s) { return s.vec_size; }
template <typename Fn> void foreach(ListSpace const& s, Fn&& f) {
  for(auto i : s.list)
    f(i);
}
} // namespace refpart
