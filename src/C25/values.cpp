// Copy, move, assignment and destruction histories of every value type
#include "common.hpp"

struct Any {
  virtual ~Any() = default;
  virtual std::unique_ptr<Any> copy() const = 0;
  virtual std::unique_ptr<Any> move() = 0;
  virtual void assign(Any const&) = 0;
  virtual void move_assign(Any&) = 0;
};
template <typename T, bool = std::is_copy_assignable<T>::value> struct Assign {
  static void copy(T& a, T const& b) { a = b; }
};
template <typename T> struct Assign<T, false> {
  static void copy(T&, T const&) { mc::fail("not assignable"); }
};
template <typename T, bool = std::is_move_assignable<T>::value> struct MAssign {
  static void move(T& a, T& b) { a = std::move(b); }
};
template <typename T> struct MAssign<T, false> {
  static void move(T&, T&) { mc::fail("not assignable"); }
};
template <typename T> struct Holder : Any {
  T t;
  template <typename... A> explicit Holder(A&&... a) : t(std::forward<A>(a)...) {}
  std::unique_ptr<Any> copy() const override { return std::unique_ptr<Any>(new Holder(t)); }
  std::unique_ptr<Any> move() override { return std::unique_ptr<Any>(new Holder(std::move(t))); }
  void assign(Any const& o) override { Assign<T>::copy(t, static_cast<Holder const&>(o).t); }
  void move_assign(Any& o) override { MAssign<T>::move(t, static_cast<Holder&>(o).t); }
};
struct Kind {
  std::string name;
  bool ca, ma;
  std::function<std::unique_ptr<Any>(int)> make;
  std::function<std::string(Any const&)> observe;
  std::function<void(Any&)> mutate; // may be empty
};

// mk: int -> T (prvalue), obs: T const& -> string, mut: T& -> void
template <typename Mk, typename Obs, typename Mut> Kind kind(std::string name, Mk mk, Obs obs, Mut mut, bool has_mut) {
  using T = typename std::decay<decltype(mk(0))>::type;
  Kind k;
  k.name = name;
  k.ca = std::is_copy_assignable<T>::value;
  k.ma = std::is_move_assignable<T>::value;
  k.make = [mk](int v) { return std::unique_ptr<Any>(new Holder<T>(mk(v))); };
  k.observe = [obs](Any const& a) { return obs(static_cast<Holder<T> const&>(a).t); };
  if(has_mut) k.mutate = [mut](Any& a) { mut(static_cast<Holder<T>&>(a).t); };
  return k;
}
template <typename Mk, typename Obs> Kind kind(std::string name, Mk mk, Obs obs) {
  return kind(name, mk, obs, [](typename std::decay<decltype(mk(0))>::type&) {}, false);
}

static std::vector<Kind> kinds() {
  using namespace static_indices;
  std::vector<Kind> K;
  static std::vector<double> data;
  for(int i = 0; i < 64; ++i)
    data.push_back(i + 1);
  static std::vector<double> wdata = data;
  auto first = [](std::size_t n) { return std::vector<double>(data.begin(), data.begin() + n); };
  using ind = std::set<std::tuple<int>>;
  using sd = sector_descriptor<HS>;

  auto hs_of = [](int v) { return v == 0 ? HS(make_space_fermion(0), make_space_boson(3, 0), make_space_spin(1, 0)) : HS(make_space_spin(0.5, 3), make_space_fermion(1)); };
  K.push_back(kind(
      "hilbert_space", hs_of,
      [](HS const& h) {
        std::ostringstream os;
        os << states_of(h) << "| " << h.size() << " " << h.dim() << " " << h.vec_size() << " " << h.is_sparse() << " ";
        h.foreach_elementary_space([&](elementary_space<int> const& e) { os << e.algebra_id() << ":" << h.index(e) << ":" << h.dim(e) << ":" << h.bit_range(e).first << ":" << h.bit_range(e).second << " "; });
        for(int al : {fermion, boson, spin})
          if(h.has_algebra(al)) os << al << "=" << h.algebra_bit_range(al).first << ".." << h.algebra_bit_range(al).second << " ";
        return os.str();
      },
      [](HS& h) { h.add(make_space_boson(2 + int(h.size()) % 2, 10 + int(h.size()))); }, true));

  auto fh = [](int v) { return v == 0 ? HS(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2), make_space_spin(0.5, 0)) : HS(make_space_fermion(0), make_space_fermion(1)); };

  auto vobs = [](auto const& v) {
    std::ostringstream os;
    std::size_t cnt = 0;
    foreach(v, [&](sv_index_type i, double const& a) {
      os << i << ":" << a << " ";
      if(++cnt > 100) mc::fail("endless traversal");
    });
    foreach(v, [&](sv_index_type i, double const& a) {
      if(get_element(v, i) != a) mc::fail(mc::str("get_element(", i, ") differs from foreach()"));
    });
    static loperator<double, fermion> const op(expression<double, int>(2.0 * static_indices::n(0)), HS(make_space_fermion(0), make_space_fermion(1)));
    YVec out(64, false);
    op(v, out);
    os << "/ " << show(out);
    return os.str();
  };
  auto vmut = [](auto& v) {
    // adds 0.5 to the first visited state
    bool done = false;
    sv_index_type at = 0;
    foreach(v, [&](sv_index_type i, double const&) {
      if(!done) at = i;
      done = true;
    });
    update_add_element(v, at, 0.5);
  };
  using D = std::vector<double>;
  // compressed
  auto ch = [](int v) { return v == 0 ? HS(make_space_fermion(0), make_space_fermion(1), make_space_boson(3, 0)) : HS(make_space_fermion(0), make_space_spin(1, 0), make_space_spin(1, 1)); };
  K.push_back(kind("compressed view", [=](int v) { return make_comp_state_view(wdata, ch(v)); }, vobs));
  K.push_back(kind("compressed const view", [=](int v) { return make_const_comp_state_view(data, ch(v)); }, vobs));
  K.push_back(kind("compressed owning view", [=](int v) { return make_comp_state_view(first(ch(v).dim()), ch(v)); }, vobs, vmut, true));
#define VIEWS(NAME, RANK)                                                      \
  K.push_back(kind("nfs view " NAME, [=](int v) { return n_fermion_sector_view<D, true, RANK>(wdata, fh(v), 1 + (v == 0)); }, vobs)); \
  K.push_back(kind("nfs const view " NAME, [=](int v) { return n_fermion_sector_view<D const, true, RANK>(data, fh(v), 1 + (v == 0)); }, vobs)); \
  K.push_back(kind("nfs owning view " NAME, [=](int v) { return n_fermion_sector_view<D, false, RANK>(first(v == 0 ? 6 : 2), fh(v), 1 + (v == 0)); }, vobs, vmut, true)); \
  K.push_back(kind("nfms view " NAME, [=](int v) { return n_fermion_multisector_view<D, true, RANK>(wdata, fh(v), sec(v)); }, vobs)); \
  K.push_back(kind("nfms const view " NAME, [=](int v) { return n_fermion_multisector_view<D const, true, RANK>(data, fh(v), sec(v)); }, vobs)); \
  K.push_back(kind("nfms owning view " NAME, [=](int v) { return n_fermion_multisector_view<D, false, RANK>(first(n_fermion_multisector_size(fh(v), sec(v))), fh(v), sec(v)); }, vobs, vmut, true))
  auto sec = [](int v) {
    std::vector<sd> r;
    if(v == 0) {
      r.push_back(sd{ind{std::make_tuple(0), std::make_tuple(2)}, 1});
      r.push_back(sd{ind{std::make_tuple(1)}, 1});
    } else
      r.push_back(sd{ind{std::make_tuple(0), std::make_tuple(1)}, 1});
    return r;
  };
  VIEWS("combination", combination_ranking);
  VIEWS("staggered", staggered_ranking<2>);
  VIEWS("trie", trie_ranking<2>);
  // mapped
  static basis_mapper const mappers[2] = {basis_mapper(std::vector<sv_index_type>{5, 0, 3}), basis_mapper(std::vector<sv_index_type>{2, 1, 7, 6})};
  auto mobs = [](auto const& v) {
    std::map<sv_index_type, double> m;
    foreach(v, [&](sv_index_type i, double const& a) {
      m[i] = a;
      if(get_element(v, i) != a) mc::fail("get_element differs");
    });
    std::ostringstream os;
    for(auto const& p : m)
      os << p.first << ":" << p.second << " ";
    return os.str();
  };
  auto mmut = [](auto& v) {
    sv_index_type lo = ~sv_index_type(0);
    foreach(v, [&](sv_index_type i, double const&) { lo = std::min(lo, i); });
    update_add_element(v, lo, 0.5);
  };
  K.push_back(kind("mapped view", [=](int v) { return mappers[v].make_view(wdata); }, mobs));
  K.push_back(kind("mapped const view", [=](int v) { return mappers[v].make_const_view(data); }, mobs));
  K.push_back(kind("mapped owning view", [=](int v) { return mappers[v].make_view(first(4)); }, mobs, mmut, true));
  K.push_back(kind(
      "basis_mapper", [=](int v) { return basis_mapper(v == 0 ? std::vector<sv_index_type>{5, 0, 3} : std::vector<sv_index_type>{2, 1, 7, 6}); },
      [=](basis_mapper const& m) {
        auto w = m.make_const_view(data);
        return mobs(w) + mc::str(m.size(), " ", m.inverse_map().size());
      }));
  // operators
  auto ohs = []() { return HS(make_space_fermion(0), make_space_fermion(1), make_space_boson(3, 0), make_space_spin(1, 0)); };
  auto oexpr = [](int v) { return v == 0 ? expression<double, int>(hop(0, 1) * (a(0) + a_dag(0)) + 2.0 * S_z<3>(0) * n(0)) : expression<double, int>(S_p<3>(0) * S_p<3>(0) + c_dag(0) + 3.0); };
  auto in = []() {
    YVec v(64, false);
    for(auto i : {1, 2, 6, 17})
      v.d.at(i) = i + 0.5;
    return v;
  };
  K.push_back(kind(
      "loperator", [=](int v) { return loperator<double, fermion, boson, spin>(oexpr(v), ohs()); },
      [=](loperator<double, fermion, boson, spin> const& o) { return show(o(in())); }));
  using pop = parametric_loperator<YCoef, fermion, boson, spin>;
  auto pexpr = [=](int v) {
    expression<YCoef, int> e;
    int k = 0;
    for(auto const& m : oexpr(v))
      e.get_monomials()[m.monomial] = YCoef{m.coeff, double(k++ % 3)};
    return e;
  };
  K.push_back(kind("parametric_loperator", [=](int v) { return pop(pexpr(v), ohs()); }, [=](pop const& o) { return show(o(in(), 2.0)) + show(o.at(3.0)(in())); }));
  // space partitions of long-living Hilbert spaces
  static HS const phs[2] = {HS(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2), make_space_boson(3, 0)), HS(make_space_fermion(0), make_space_fermion(1))};
  K.push_back(kind(
      "space_partition", [=](int v) { return make_space_partition(loperator<double, fermion, boson>(hop(0, 1), phs[v]), phs[v]); },
      [](space_partition<HS> const& p) {
        std::ostringstream os;
        foreach(p, [&](sv_index_type i, sv_index_type s) { os << i << ":" << s << " "; });
        os << p.n_subspaces() << " " << p.dim() << " ";
        for(sv_index_type s = 0; s < p.n_subspaces(); ++s)
          os << show(p.subspace_basis(s)) << "|";
        return os.str();
      },
      [=](space_partition<HS>& p) {
        // v = 1 has fewer modes: all operators below exist in both spaces
        int v = p.dim() == 4;
        p.merge_subspaces(loperator<double, fermion, boson>(expression<double, int>(c_dag(0) + c_dag(1)), phs[v]), loperator<double, fermion, boson>(expression<double, int>(c(0) + c(1)), phs[v]), false);
      },
      true));
  K.push_back(kind(
      "sparse_state_vector",
      [](int v) {
        sparse_state_vector<double> s(8);
        s[3] = v + 1;
        if(v) s[5] = 2;
        return s;
      },
      [](sparse_state_vector<double> const& s) {
        std::map<sv_index_type, double> m;
        foreach(s, [&](sv_index_type i, double const& a) { m[i] = a; });
        std::ostringstream os;
        for(auto const& p : m)
          os << p.first << ":" << p.second << " ";
        os << s.size() << " " << s.n_nonzeros();
        return os.str();
      },
      [](sparse_state_vector<double>& s) { update_add_element(s, 3, 0.5); update_add_element(s, 7, 1.0); }, true));
  K.push_back(kind(
      "disjoint_sets",
      [](int v) {
        disjoint_sets d(5 + v);
        d.set_union(1, 3);
        return d;
      },
      [](disjoint_sets const& d) {
        std::ostringstream os;
        os << d.size() << " " << d.n_sets() << " ";
        for(std::size_t i = 0; i < d.size(); ++i)
          for(std::size_t j = 0; j < i; ++j)
            os << d.in_same_set(i, j);
        return os.str();
      },
      [](disjoint_sets& d) {
        d.set_union(d.size() - 2, d.size() - 4);
        d.make_set();
      },
      true));
  // expressions and their parts
  K.push_back(kind(
      "expression", oexpr,
      [](expression<double, int> const& e) {
        std::ostringstream os;
        os << e;
        return os.str();
      },
      [](expression<double, int>& e) { e *= static_indices::c_dag(5) + 2.0; }, true));
  K.push_back(kind(
      "monomial",
      [=](int v) {
        auto e = oexpr(v);
        auto it = e.begin();
        while((*it).monomial.size() < 2)
          ++it;
        return monomial<int>((*it).monomial);
      },
      [](monomial<int> const& m) {
        std::ostringstream os;
        os << m << " " << m.size() << " " << m.is_ordered();
        for(auto const& g : m)
          os << g;
        return os.str();
      },
      [](monomial<int>& m) { m.swap_generators(0, 1); }, true));
  K.push_back(kind(
      "dynamic indices",
      [](int v) {
        using dyn_indices = dynamic_indices::dyn_indices;
        return v == 0 ? dyn_indices(1, "up", 2) : dyn_indices("a string that does not fit in place");
      },
      [](dynamic_indices::dyn_indices const& d) {
        std::ostringstream os;
        os << d << d.size();
        return os.str();
      }));
  return K;
}
static std::vector<Kind> const& all() {
  static auto* k = new std::vector<Kind>(kinds());
  return *k;
}

namespace {
struct Slot {
  int v = -2;   // -2: nothing there, -1: moved from
  int mut = 0;
};
enum { MAKE, COPY, MOVE, ASSIGN, MASSIGN, SELF, DESTROY, MUTATE };
struct OpD {
  int op, slot, arg;
};
char const* names[] = {"make", "copy-construct", "move-construct", "assign", "move-assign", "self-assign", "destroy", "mutate"};
} // namespace

FAMILY(value_histories) {
  int L = cx.pick(4, 5);
  cx.bound(mc::str("all histories of up to ", L, " construct/copy/move/assign/self-assign/mutate/destroy operations on two slots, for ", all().size(), " value types, every slot observed after every step"));
  std::vector<OpD> ops;
  for(int s = 0; s < 2; ++s) {
    ops.push_back({MAKE, s, 0});
    ops.push_back({MAKE, s, 1});
    for(int o : {COPY, MOVE, ASSIGN, MASSIGN, SELF, DESTROY, MUTATE})
      ops.push_back({o, s, 1 - s});
  }
  int maxmut = 2;
  for(auto const& k : all()) {
    if(cx.done()) return;
    // expected observations by value and number of mutations
    std::vector<std::vector<std::string>> ex(2);
    // (computed on first use, inside a case)
    auto expected = [&](Slot const& s) -> std::string const& {
      if(ex[0].empty())
        for(int v = 0; v < 2; ++v) {
          auto a = k.make(v);
          for(int m = 0; m <= maxmut; ++m) {
            if(m > 0 && k.mutate) k.mutate(*a);
            ex[v].push_back(k.observe(*a));
          }
        }
      return ex[s.v][s.mut];
    };
    auto possible = [&](OpD const& o, Slot const* s) {
      Slot const &a = s[o.slot], &b = s[1 - o.slot];
      switch(o.op) {
      case MAKE: return true;
      case COPY:
      case MOVE: return b.v >= 0;
      case ASSIGN: return k.ca && b.v >= 0 && a.v >= -1;
      case MASSIGN: return k.ma && b.v >= 0 && a.v >= -1;
      case SELF: return k.ca && a.v >= 0;
      case DESTROY: return a.v >= -1;
      default: return bool(k.mutate) && a.v >= 0 && a.mut < maxmut;
      }
    };
    auto step = [](OpD const& o, Slot* s) {
      Slot &a = s[o.slot], &b = s[1 - o.slot];
      switch(o.op) {
      case MAKE: a.v = o.arg, a.mut = 0; break;
      case COPY:
      case ASSIGN: a = b; break;
      case MOVE:
      case MASSIGN: a = b, b.v = -1; break;
      case SELF: break;
      case DESTROY: a.v = -2; break;
      default: ++a.mut;
      }
    };
    std::vector<OpD> hist;
    std::function<void(Slot const*)> rec = [&](Slot const* s) {
      if(int(hist.size()) == L) {
        cx.test(
            [&] {
              std::string t = k.name + ":";
              for(auto const& o : hist)
                t += mc::str(" ", names[o.op], " ", "AB"[o.slot], o.op == MAKE ? mc::str("(", o.arg, ")") : "");
              return t;
            },
            [&] {
              std::unique_ptr<Any> real[2];
              Slot m[2];
              for(auto const& o : hist) {
                auto &a = real[o.slot], &b = real[1 - o.slot];
                switch(o.op) {
                case MAKE: a = k.make(o.arg); break;
                case COPY: a = b->copy(); break;
                case MOVE: a = b->move(); break;
                case ASSIGN: a->assign(*b); break;
                case MASSIGN: a->move_assign(*b); break;
                case SELF: a->assign(*a); break;
                case DESTROY: a.reset(); break;
                default: k.mutate(*a);
                }
                cx.trans();
                step(o, m);
                for(int i = 0; i < 2; ++i)
                  if(m[i].v >= 0) {
                    std::string r = k.observe(*real[i]);
                    MC_CHECK(r == expected(m[i]), "slot ", "AB"[i], " after ", names[o.op], " ", "AB"[o.slot], ": ", r, " instead of ", expected(m[i]));
                  }
                uint64_t h = mc::hstr(k.name);
                for(auto const& x : m)
                  h = mc::hcomb(h, x.v * 8 + x.mut);
                cx.state(h);
              }
              cx.validated();
            });
        return;
      }
      for(auto const& o : ops) {
        if(hist.empty() && (o.op != MAKE || o.slot != 0)) continue;
        if(!possible(o, s)) continue;
        Slot t[2] = {s[0], s[1]};
        step(o, t);
        hist.push_back(o);
        rec(t);
        hist.pop_back();
      }
    };
    Slot none[2];
    rec(none);
  }
}
