// C25: shared constant objects ("worlds") and the read-only computations on them
#pragma once
#include "fiber.hpp"
#include <libcommute/libcommute.hpp>
#include <map>
#include <memory>
#include <set>
#include <sstream>

// --- scheduling points ---------------------------------------------------------
struct Abandon {};
struct Points {
  // number of the point at which the running computation is abandoned (-1: never)
  static long& abandon_at() {
    static thread_local long a = -1;
    return a;
  }
};
inline void point() {
  long& a = Points::abandon_at();
  if(a >= 0 && a-- == 0) throw Abandon{};
  fiber::Sched::yield();
}

// --- types with scheduling points in their callbacks --------------------------------
namespace yield_types {
// state vector
struct Vec {
  std::vector<double> d;
  bool yields = true;
  explicit Vec(std::size_t n, bool y = true) : d(n), yields(y) {}
};
using libcommute::sv_index_type;
inline double get_element(Vec const& v, sv_index_type n) {
  return v.d.at(n);
}
template <typename T> void update_add_element(Vec& v, sv_index_type n, T const& x) { v.d.at(n) += x; }
inline void set_zeros(Vec& v) { v.d.assign(v.d.size(), 0.0); }
inline Vec zeros_like(Vec const& v) { return Vec(v.d.size(), v.yields); }
template <typename F> void foreach(Vec const& v, F&& f) {
  for(std::size_t i = 0; i < v.d.size(); ++i)
    if(v.d[i] != 0) {
      if(v.yields) point();
      f(i, v.d[i]);
    }
}
// Hilbert space accepted by space_partition
struct Space {
  std::vector<sv_index_type> states;
  sv_index_type size;
  sv_index_type dim() const { return states.size(); }
};
inline sv_index_type get_vec_size(Space const& s) { return s.size; }
template <typename F> void foreach(Space const& s, F&& f) {
  for(auto n : s.states) {
    point();
    f(n);
  }
}
// scalar
struct Num {
  double v = 0;
  Num() = default;
  explicit Num(double v) : v(v) {}
  Num operator+(Num const& o) const { return Num(v + o.v); }
  Num operator-(Num const& o) const { return Num(v - o.v); }
  Num operator-() const { return Num(-v); }
  Num operator*(Num const& o) const {
    point();
    return Num(v * o.v);
  }
  Num& operator+=(Num const& o) {
    v += o.v;
    return *this;
  }
  bool operator==(Num const& o) const { return v == o.v; }
};
inline std::ostream& operator<<(std::ostream& os, Num const& n) {
  point();
  return os << n.v;
}
// parametric coefficient
struct Coef {
  double c = 1;
  double p = 0; // c*x^p
  double operator()(double x) const {
    point();
    return c * std::pow(x, p);
  }
  Coef operator*(Coef const& o) const { return Coef{c * o.c, p + o.p}; }
  Coef operator+(Coef const& o) const { return Coef{c + o.c, p}; }
  Coef operator-() const { return Coef{-c, p}; }
  bool operator==(Coef const& o) const { return c == o.c && p == o.p; }
};
} // namespace yield_types
using YVec = yield_types::Vec;
using YSpace = yield_types::Space;
using YNum = yield_types::Num;
using YCoef = yield_types::Coef;
namespace libcommute {
template <> struct element_type<YVec> {
  using type = double;
};
template <> struct scalar_traits<YNum> {
  static bool is_zero(YNum const& x) { return x.v == 0; }
  static YNum make_const(double x) { return YNum(x); }
  static YNum make_const(var_number const& x) { return YNum(double(x)); }
  static YNum conj(YNum const& x) {
    point();
    return x;
  }
};
template <> struct scalar_traits<YCoef> {
  static bool is_zero(YCoef const& x) { return x.c == 0; }
  static YCoef make_const(double x) { return YCoef{x, 0}; }
  static YCoef make_const(var_number const& x) { return YCoef{double(x), 0}; }
};
} // namespace libcommute

using namespace libcommute;
using HS = hilbert_space<int>;

// --- scenarios ---------------------------------------------------------------------
struct Comp {
  std::string name;
  std::function<std::string()> run;
};
struct Scenario {
  std::string name;
  // a fresh set of shared objects and all computations on it
  std::function<std::vector<Comp>()> make;
};

template <typename T> std::string show(T const& v) {
  std::ostringstream os;
  os.precision(12);
  for(auto const& x : v)
    os << x << " ";
  return os.str();
}
inline std::string show(YVec const& v) { return show(v.d); }

// Traversal with a scheduling point before every visited pair
template <typename V> std::string traverse(V const& v) {
  std::ostringstream os;
  os.precision(12);
  foreach(v, [&](sv_index_type i, double const& a) {
    point();
    os << i << ":" << a << " ";
  });
  return os.str();
}
template <typename V> std::string sorted_traverse(V const& v) {
  std::map<sv_index_type, double> m;
  foreach(v, [&](sv_index_type i, double const& a) {
    point();
    if(!m.emplace(i, a).second) mc::fail("visited twice");
  });
  std::ostringstream os;
  for(auto const& p : m)
    os << p.first << ":" << p.second << " ";
  return os.str();
}
template <typename H> std::string states_of(H const& hs) {
  std::ostringstream os;
  foreach(hs, [&](sv_index_type i) {
    point();
    os << i << " ";
  });
  return os.str();
}

inline expression<double, int> hop(int i, int j) {
  using namespace static_indices;
  return c_dag(i) * c(j) + c_dag(j) * c(i);
}

// Shared objects: a Hilbert space, vectors, an operator, and views given by 'V'
template <typename V, typename MakeView> std::function<std::vector<Comp>()> view_world(std::shared_ptr<HS> hs, std::vector<sv_index_type> states, expression<double, int> op, MakeView mv, bool ordered) {
  return [=]() {
    struct W {
      std::shared_ptr<HS> hs;
      std::vector<double> data;
      std::unique_ptr<V> view, copy;
      loperator<double, fermion, boson, spin> op;
      std::vector<sv_index_type> states;
    };
    auto w = std::make_shared<W>();
    w->hs = hs;
    w->states = states;
    w->data.resize(states.size());
    for(std::size_t i = 0; i < states.size(); ++i)
      w->data[i] = i % 3 == 1 && states.size() > 4 ? 0 : double(i + 1);
    w->view.reset(new V(mv(w->data, *hs)));
    w->copy.reset(new V(*w->view));
    w->op = loperator<double, fermion, boson, spin>(op, *hs);
    std::vector<Comp> r;
    r.push_back({"foreach(view)", [=] { return ordered ? traverse(*w->view) : sorted_traverse(*w->view); }});
    r.push_back({"foreach(copy of view)", [=] { return ordered ? traverse(*w->copy) : sorted_traverse(*w->copy); }});
    r.push_back({"get_element(view)", [=] {
                   std::ostringstream os;
                   for(auto s : w->states) {
                     point();
                     os << get_element(*w->view, s) << " ";
                   }
                   return os.str();
                 }});
    r.push_back({"op(view, dst)", [=] {
                   // destination indexed by basis states; scheduling points are
                   // in the source (traversed by the operator)
                   YVec dst(hs->vec_size(), false);
                   V const& v = *w->view;
                   struct Log {};
                   foreach(v, [&](sv_index_type i, double const& a) {
                     point();
                     std::vector<double> in(hs->vec_size(), 0.0);
                     in[i] = a;
                     std::vector<double> out(hs->vec_size(), 0.0);
                     w->op(in, out);
                     for(std::size_t k = 0; k < out.size(); ++k)
                       dst.d[k] += out[k];
                   });
                   YVec direct(hs->vec_size(), false);
                   w->op(v, direct);
                   if(show(direct) != show(dst)) mc::fail("op(view, dst) differs from the sum over foreach(view): " + show(direct) + " / " + show(dst));
                   return show(dst);
                 }});
    return r;
  };
}

inline std::vector<Scenario> scenarios() {
  using namespace static_indices;
  std::vector<Scenario> S;
  auto make_sp = [](double s, int i) { return std::unique_ptr<elementary_space<int>>(make_space_spin(s, i).clone()); };
  // ---- Hilbert spaces
  auto add_hs = [&](std::string name, std::function<HS()> mk) {
    S.push_back({"Hilbert space " + name, [mk]() {
                   auto h = std::make_shared<HS>(mk());
                   auto c = std::make_shared<HS>(*h);
                   auto data = std::make_shared<std::vector<double>>(h->dim());
                   for(std::size_t i = 0; i < data->size(); ++i)
                     (*data)[i] = double(i + 1);
                   auto cv = std::make_shared<compressed_state_view<std::vector<double> const>>(*data, *h);
                   std::vector<Comp> r;
                   r.push_back({"foreach(hs)", [h] { return states_of(*h); }});
                   r.push_back({"foreach(copy)", [c] { return states_of(*c); }});
                   r.push_back({"foreach(compressed view)", [h, data, cv] { return traverse(*cv); }});
                   r.push_back({"map_index(compressed view)", [h, cv, data] {
                                  std::ostringstream os;
                                  foreach(*h, [&](sv_index_type i) {
                                    point();
                                    os << cv->map_index(i) << " ";
                                  });
                                  return os.str();
                                }});
                   r.push_back({"queries", [h] {
                                  std::ostringstream os;
                                  os << h->dim() << " " << h->is_sparse() << " ";
                                  h->foreach_elementary_space([&](elementary_space<int> const& e) {
                                    point();
                                    os << h->index(e) << ":" << h->dim(e) << ":" << h->bit_range(e).first << " ";
                                  });
                                  return os.str();
                                }});
                   return r;
                 }});
  };
  add_hs("dense, 2 fermions", [] { return HS(make_space_fermion(0), make_space_fermion(1)); });
  add_hs("sparse, fermion x boson(3)", [] { return HS(make_space_fermion(0), make_space_boson(3, 0)); });
  add_hs("sparse, spin 1 x fermion", [] { return HS(make_space_spin(1, 0), make_space_fermion(0)); });
  // ---- sector views
  auto f3 = std::make_shared<HS>(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2));
  auto f4 = std::make_shared<HS>(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2), make_space_fermion(3));
  auto f3s = std::make_shared<HS>(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2), make_space_spin(0.5, 0));
  auto hops = hop(0, 1) + 2.0 * hop(1, 2);
  auto add_nfs = [&](std::string name, std::shared_ptr<HS> hs, int N) {
    auto states = n_fermion_sector_basis_states(*hs, N);
#define NFS(RANK)                                                              \
  S.push_back({"nfs view " + name + " " #RANK,                                 \
               view_world<n_fermion_sector_view<std::vector<double> const, true, RANK>>(hs, states, hops,               \
                   [N](std::vector<double> const& d, HS const& h) {            \
                     return n_fermion_sector_view<std::vector<double> const, true, RANK>(d, h, N);                     \
                   },                                                          \
                   true)})
    NFS(combination_ranking);
    NFS(staggered_ranking<2>);
    NFS(trie_ranking<2>);
  };
  add_nfs("3 fermions N=1", f3, 1);
  add_nfs("3 fermions N=2", f3, 2);
  add_nfs("3 fermions + spin, N=1", f3s, 1);
  using sd = sector_descriptor<HS>;
  auto add_nfms = [&](std::string name, std::shared_ptr<HS> hs, std::vector<sd> sec) {
    auto states = n_fermion_multisector_basis_states(*hs, sec);
#define NFMS(RANK)                                                             \
  S.push_back({"nfms view " + name + " " #RANK,                                \
               view_world<n_fermion_multisector_view<std::vector<double> const, true, RANK>>(hs, states, hops,          \
                   [sec](std::vector<double> const& d, HS const& h) {          \
                     return n_fermion_multisector_view<std::vector<double> const, true, RANK>(d, h, sec);              \
                   },                                                          \
                   true)})
    NFMS(combination_ranking);
    NFMS(staggered_ranking<2>);
    NFMS(trie_ranking<2>);
  };
  auto ind = [](std::vector<int> v) {
    std::set<std::tuple<int>> s;
    for(int i : v)
      s.insert(std::make_tuple(i));
    return s;
  };
  add_nfms("{0,1}:1 {2,3}:1", f4, {sd{ind({0, 1}), 1}, sd{ind({2, 3}), 1}});
  add_nfms("{0,2}:1, rest free", f3, {sd{ind({0, 2}), 1}});
  // ---- mapped views
  {
    auto hs = f3;
    auto mapper = std::make_shared<basis_mapper>(std::vector<sv_index_type>{3, 5, 6, 0});
    S.push_back({"mapped view", [=]() {
                   auto data = std::make_shared<std::vector<double>>(std::vector<double>{1, 2, 3, 4});
                   auto v = std::make_shared<mapped_basis_view<std::vector<double> const>>(mapper->make_const_view(*data));
                   std::vector<Comp> r;
                   r.push_back({"foreach(view)", [=] { return (void)data, sorted_traverse(*v); }});
                   r.push_back({"get_element", [=] {
                                  std::ostringstream os;
                                  for(sv_index_type s : {0, 3, 5, 6}) {
                                    point();
                                    os << get_element(*v, s) << " ";
                                  }
                                  return os.str();
                                }});
                   r.push_back({"maps", [=] {
                                  std::map<sv_index_type, sv_index_type> a, b;
                                  for(auto const& p : mapper->map()) {
                                    point();
                                    a.insert(p);
                                  }
                                  for(auto const& p : mapper->inverse_map())
                                    b.insert(p);
                                  std::ostringstream os;
                                  for(auto const& p : a)
                                    os << p.first << ">" << p.second << " ";
                                  for(auto const& p : b)
                                    os << p.first << "<" << p.second << " ";
                                  return os.str();
                                }});
                   return r;
                 }});
  }
  // ---- operators
  {
    auto hs = std::make_shared<HS>(make_space_fermion(0), make_space_fermion(1), make_space_boson(3, 0), make_space_spin(1, 0));
    S.push_back({"loperator", [=]() {
                   expression<double, int> e = hop(0, 1) * (a(0) + a_dag(0)) + 2.0 * S_z<3>(0) * n(0) + S_p<3>(0) * S_p<3>(0);
                   auto op = std::make_shared<loperator<double, fermion, boson, spin>>(e, *hs);
                   auto cp = std::make_shared<loperator<double, fermion, boson, spin>>(*op);
                   auto vec = std::make_shared<YVec>(hs->vec_size());
                   for(auto i : {1, 2, 6, 17})
                     vec->d.at(i) = i + 0.5;
                   std::vector<Comp> r;
                   r.push_back({"op(src,dst)", [=] {
                                  YVec dst(vec->d.size());
                                  (*op)(*vec, dst);
                                  return show(dst);
                                }});
                   r.push_back({"op*src", [=] { return show(*op * *vec); }});
                   r.push_back({"copy(src)", [=] { return show((*cp)(*vec)); }});
                   r.push_back({"op(op(src))", [=] { return show((*op)((*cp)(*vec))); }});
                   return r;
                 }});
    S.push_back({"parametric_loperator", [=]() {
                   using ex = expression<YCoef, int>;
                   ex e;
                   auto const& src = hop(0, 1) + n(0) + n(1) * S_z<3>(0) + a_dag(0);
                   int k = 0;
                   for(auto const& m : src)
                     e.get_monomials()[m.monomial] = YCoef{m.coeff, double(k++ % 3)};
                   using pop = parametric_loperator<YCoef, fermion, boson, spin>;
                   auto op = std::make_shared<pop>(e, *hs);
                   auto cp = std::make_shared<pop>(*op);
                   auto vec = std::make_shared<YVec>(hs->vec_size(), false);
                   for(auto i : {1, 2, 6, 17})
                     vec->d.at(i) = i + 0.5;
                   std::vector<Comp> r;
                   r.push_back({"op(src,x=2)", [=] { return show((*op)(*vec, 2.0)); }});
                   r.push_back({"op(src,dst,x=3)", [=] {
                                  YVec dst(vec->d.size());
                                  (*op)(*vec, dst, 3.0);
                                  return show(dst);
                                }});
                   r.push_back({"act_and_store_coeffs(x=-1)", [=] {
                                  YVec dst(vec->d.size());
                                  std::vector<double> co;
                                  op->act_and_store_coeffs(*vec, dst, co, -1.0);
                                  return show(dst) + "/" + show(co);
                                }});
                   r.push_back({"at(5)", [=] { return show(cp->at(5.0)(*vec)); }});
                   r.push_back({"op.at(7)", [=] { return show(op->at(7.0)(*vec)); }});
                   return r;
                 }});
  }
  // ---- space partitions
  {
    auto add_sp = [&](std::string name, YSpace sp, std::vector<std::pair<int, int>> swaps) {
      S.push_back({"space_partition " + name, [=]() {
                     auto sps = std::make_shared<YSpace>(sp);
                     HS h(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2));
                     expression<double, int> e;
                     for(auto const& p : swaps)
                       e += hop(p.first, p.second);
                     loperator<double, fermion> H(e, h);
                     long& ab = Points::abandon_at();
                     long save = ab;
                     ab = -1;
                     auto p = std::make_shared<space_partition<YSpace>>(H, *sps);
                     ab = save;
                     auto cp = std::make_shared<space_partition<YSpace>>(*p);
                     auto d = std::make_shared<loperator<double, fermion>>(expression<double, int>(n(0) + c_dag(1) * c(2)), h);
                     std::vector<Comp> r;
                     r.push_back({"foreach(sp)", [=] {
                                    (void)sps;
                                    std::ostringstream os;
                                    foreach(*p, [&](sv_index_type i, sv_index_type s) { os << i << ":" << s << " "; });
                                    return os.str();
                                  }});
                     r.push_back({"subspace_bases", [=] {
                                    std::ostringstream os;
                                    for(auto const& b : p->subspace_bases())
                                      os << show(b) << "|";
                                    return os.str();
                                  }});
                     r.push_back({"subspace_basis of copy", [=] { return show(cp->subspace_basis(0)); }});
                     r.push_back({"lookup", [=] {
                                    std::ostringstream os;
                                    for(auto i : sps->states) {
                                      point();
                                      os << (*p)[i] << " ";
                                    }
                                    os << p->n_subspaces();
                                    return os.str();
                                  }});
                     r.push_back({"find_connections", [=] {
                                    std::ostringstream os;
                                    for(auto const& c : p->find_connections(*d))
                                      os << c.first << ">" << c.second << " ";
                                    return os.str();
                                  }});
                     return r;
                   }});
    };
    add_sp("3 fermions, hops 0-1-2", YSpace{{0, 1, 2, 3, 4, 5, 6, 7}, 8}, {{0, 1}, {1, 2}});
    add_sp("3 fermions, hop 0-2", YSpace{{0, 1, 2, 3, 4, 5, 6, 7}, 8}, {{0, 2}});
  }
  // ---- expressions
  S.push_back({"expression", []() {
                 using ex = expression<YNum, int>;
                 auto conv = [](expression<double, int> const& x) {
                   ex r;
                   for(auto const& m : x)
                     r.get_monomials()[m.monomial] = YNum(m.coeff);
                   return r;
                 };
                 auto e = std::make_shared<ex>(conv(2.0 * c_dag(0) * c(1) + 3.0 * a(0) + 1.0));
                 auto g = std::make_shared<ex>(*e);
                 auto str = [](ex const& x) {
                   std::ostringstream os;
                   for(auto const& m : x)
                     os << m.coeff.v << " " << m.monomial << ";";
                   return os.str();
                 };
                 std::vector<Comp> r;
                 r.push_back({"iteration", [=] {
                                std::ostringstream os;
                                for(auto const& m : *e) {
                                  point();
                                  os << m.coeff.v << "*" << m.monomial << " ";
                                }
                                return os.str();
                              }});
                 r.push_back({"e*3", [=] { return str(*e * YNum(3)); }});
                 r.push_back({"e*e", [=] { return str(*e * *e); }});
                 r.push_back({"g+e", [=] { return str(*g + *e); }});
                 r.push_back({"conj", [=] { return str(conj(*e)); }});
                 r.push_back({"print", [=] {
                                std::ostringstream os;
                                os << *e;
                                return os.str();
                              }});
                 r.push_back({"transform", [=] {
                                return str(transform(*e, [](monomial<int> const& m, YNum const& c) {
                                  point();
                                  return YNum(c.v * double(m.size() + 1));
                                }));
                              }});
                 return r;
               }});
  return S;
}
