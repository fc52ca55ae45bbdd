// C29: disjoint sets implement an equivalence relation with stable numbering
#include "mc.hpp"
#include <algorithm>
#include <libcommute/loperator/disjoint_sets.hpp>
#include <numeric>
using libcommute::disjoint_sets;

namespace {
struct Model {
  std::vector<int> label; // smallest member of the set
  explicit Model(int n) : label(n) { std::iota(label.begin(), label.end(), 0); }
  int size() const { return int(label.size()); }
  int n_sets() const {
    int n = 0;
    for(int i = 0; i < size(); ++i)
      n += label[i] == i;
    return n;
  }
  void join(int x, int y) {
    int a = std::min(label[x], label[y]), b = std::max(label[x], label[y]);
    for(int& l : label)
      if(l == b) l = a;
  }
  uint64_t hash() const {
    uint64_t h = 3;
    for(int l : label)
      h = mc::hcomb(h, l);
    return h;
  }
};
enum { UNION, ROOT_UNION, FIND, SAME, COMPRESS, NORMALIZE, MAKE, MAKES };
struct Op {
  int op, x, y;
};
std::string op_str(Op const& o) {
  switch(o.op) {
  case UNION: return mc::str("union(", o.x, ",", o.y, ") ");
  case ROOT_UNION: return mc::str("root_union(", o.x, ",", o.y, ") ");
  case FIND: return mc::str("find(", o.x, ") ");
  case SAME: return mc::str("same(", o.x, ",", o.y, ") ");
  case COMPRESS: return "compress ";
  case NORMALIZE: return "normalize ";
  case MAKE: return "make_set ";
  default: return mc::str("make_sets(", o.x, ") ");
  }
}
std::string hist_str(std::vector<Op> const& h) {
  std::string s;
  for(auto const& o : h)
    s += op_str(o);
  return s;
}
// Full observation; works on a copy so that root queries do not disturb the history
void observe(disjoint_sets const& real, Model const& m, bool normalized, std::vector<Op> const& h) {
  auto where = [&] { return "after " + hist_str(h); };
  disjoint_sets d(real);
  int n = m.size();
  MC_CHECK(int(d.size()) == n, where(), "size() = ", d.size());
  MC_CHECK(int(d.n_sets()) == m.n_sets(), where(), "n_sets() = ", d.n_sets(), " expected ", m.n_sets());
  std::vector<std::size_t> root(n);
  for(int i = 0; i < n; ++i) {
    root[i] = d.find_root(i);
    MC_CHECK(int(root[i]) < n && m.label[root[i]] == m.label[i], where(), "find_root(", i, ") = ", root[i], " lies in another set");
    if(normalized) MC_CHECK(int(root[i]) == m.label[i], where(), "find_root(", i, ") = ", root[i], " is not the smallest member ", m.label[i]);
  }
  for(int i = 0; i < n; ++i) {
    MC_CHECK(d.find_root(i) == root[i], where(), "find_root(", i, ") is not stable");
    MC_CHECK(root[root[i]] == root[i], where(), "the root of root ", root[i], " is ", root[root[i]]);
    for(int j = 0; j < n; ++j)
      MC_CHECK((root[i] == root[j]) == (m.label[i] == m.label[j]) && d.in_same_set(i, j) == (m.label[i] == m.label[j]), where(), "elements ", i, " and ", j, ": roots ", root[i], ", ", root[j]);
  }
}
// Applies one operation to both; returns whether the representatives are normalized now
bool apply_op(disjoint_sets& d, Model& m, Op const& o, bool normalized, std::vector<Op> const& h) {
  auto where = [&] { return "in " + hist_str(h); };
  switch(o.op) {
  case UNION: {
    auto rx = d.find_root(o.x), ry = d.find_root(o.y);
    bool joined = m.label[o.x] != m.label[o.y];
    auto r = d.set_union(o.x, o.y);
    MC_CHECK(joined ? (r == rx || r == ry) : r == rx, where(), "set_union reports ", r, ", roots were ", rx, ", ", ry);
    m.join(o.x, o.y);
    disjoint_sets c(d);
    MC_CHECK(c.find_root(o.x) == r && c.find_root(o.y) == r, where(), "set_union reports ", r, ", the root is ", c.find_root(o.x));
    return normalized && !joined;
  }
  case ROOT_UNION: {
    auto rx = d.find_root(o.x), ry = d.find_root(o.y);
    if(rx == ry) return normalized;
    auto r = d.root_union(rx, ry);
    MC_CHECK(r == rx || r == ry, where(), "root_union reports ", r);
    m.join(o.x, o.y);
    MC_CHECK(d.find_root(rx) == r && d.find_root(ry) == r, where(), "root_union reports ", r, ", the root is ", d.find_root(rx));
    return false;
  }
  case FIND: {
    auto r = d.find_root(o.x);
    MC_CHECK(m.label.at(r) == m.label[o.x], where(), "find_root gives ", r);
    return normalized;
  }
  case SAME: MC_CHECK(d.in_same_set(o.x, o.y) == (m.label[o.x] == m.label[o.y]), where(), "in_same_set"); return normalized;
  case COMPRESS: {
    std::vector<std::size_t> before, after;
    for(int i = 0; i < m.size(); ++i) {
      disjoint_sets c(d);
      before.push_back(c.find_root(i));
    }
    d.compress_sets();
    for(int i = 0; i < m.size(); ++i) {
      disjoint_sets c(d);
      after.push_back(c.find_root(i));
    }
    MC_CHECK(before == after, where(), "compress_sets changes representatives");
    return normalized;
  }
  case NORMALIZE: d.normalize_sets(); return true;
  case MAKE: {
    auto r = d.make_set();
    MC_CHECK(int(r) == m.size(), where(), "make_set() returns ", r);
    m.label.push_back(m.size());
    return normalized;
  }
  default: {
    d.make_sets(o.x);
    for(int i = 0; i < o.x; ++i)
      m.label.push_back(m.size());
    return normalized;
  }
  }
}

struct Node {
  disjoint_sets d;
  Model m;
  bool normalized;
};
struct Explorer {
  mc::Ctx& cx;
  bool queries; // root queries as separate operations
  int maxn;
  std::vector<Op> h;
  std::vector<int> makes = {2};
  std::vector<Op> ops(Model const& m) const {
    std::vector<Op> r;
    int n = m.size();
    for(int x = 0; x < n; ++x)
      for(int y = 0; y < n; ++y)
        if(x != y || x == 0) r.push_back({UNION, x, y});
    if(queries) {
      for(int x = 0; x < n; ++x)
        r.push_back({FIND, x, 0});
      for(int x = 0; x + 1 < n; ++x)
        r.push_back({SAME, x, x + 1});
    }
    r.push_back({COMPRESS, 0, 0});
    r.push_back({NORMALIZE, 0, 0});
    if(n > 1) r.push_back({ROOT_UNION, n - 1, 0});
    if(n < maxn) r.push_back({MAKE, 0, 0});
    for(int k : makes)
      if(n + k <= maxn) r.push_back({MAKES, k, 0});
    return r;
  }
  void rec(Node const& s, int depth) {
    for(auto const& o : ops(s.m)) {
      Node t(s);
      h.push_back(o);
      t.normalized = apply_op(t.d, t.m, o, s.normalized, h);
      observe(t.d, t.m, t.normalized, h);
      cx.trans();
      cx.state(mc::hcomb(t.m.hash(), t.normalized));
      if(depth > 1) rec(t, depth - 1);
      else
        cx.validated();
      h.pop_back();
    }
  }
  // cases are the prefixes of length 2 (3 for long histories)
  void run(int n0, int depth) { prefixes(Node{disjoint_sets(n0), Model(n0), true}, n0, depth, {}); }
  void prefixes(Node const& s, int n0, int depth, std::vector<Op> const& pre) {
    for(auto const& o : ops(s.m)) {
      if(cx.done()) return;
      std::vector<Op> w(pre);
      w.push_back(o);
      if(w.size() < (depth >= 6 ? 3 : 2)) {
        Node t(s);
        h = w;
        try {
          t.normalized = apply_op(t.d, t.m, o, t.normalized, h);
        } catch(...) { /* reported by the cases that start like this */
        }
        prefixes(t, n0, depth, w);
        continue;
      }
      cx.test([&] { return mc::str(n0, " sets: ", hist_str(w), "..."); },
              [&] {
                Node t{disjoint_sets(n0), Model(n0), true};
                h.clear();
                for(auto const& x : w) {
                  h.push_back(x);
                  t.normalized = apply_op(t.d, t.m, x, t.normalized, h);
                  observe(t.d, t.m, t.normalized, h);
                  cx.trans();
                }
                if(depth > int(w.size())) rec(t, depth - int(w.size()));
              });
    }
  }
};
} // namespace

FAMILY(all_histories) {
  std::vector<std::pair<int, int>> b = cx.thorough() ? std::vector<std::pair<int, int>>{{0, 6}, {2, 6}, {3, 5}, {4, 5}, {5, 5}} : std::vector<std::pair<int, int>>{{0, 5}, {2, 5}, {3, 5}, {4, 5}, {5, 4}};
  for(auto const& p : b) {
    cx.bound(mc::str("from ", p.first, " sets: all histories of ", p.second, " operations (set_union, root_union, find_root, in_same_set, compress, normalize, make_set, make_sets), full observation on a copy after every step"));
    Explorer{cx, true, p.first + 2, {}}.run(p.first, p.second);
  }
}
// Elements added in groups of every size, at any point of a history
FAMILY(growing) {
  std::vector<std::pair<int, int>> b = cx.thorough() ? std::vector<std::pair<int, int>>{{0, 5}, {1, 5}, {2, 5}, {3, 4}} : std::vector<std::pair<int, int>>{{0, 5}, {1, 5}, {2, 4}, {3, 4}};
  for(auto const& p : b) {
    cx.bound(mc::str("from ", p.first, " sets: all histories of ", p.second, " operations without separate queries, make_sets(0), (1), (3) and (5) included, at most ", p.first + 8, " elements"));
    Explorer e{cx, false, p.first + 8, {}};
    e.makes = {0, 1, 3, 5};
    e.run(p.first, p.second);
  }
  cx.bound("make_sets(m) for all m = 0..70 after every union pattern {none, one union, all in one set} of n = 0..40 elements, followed by unions across the old and the new elements");
  for(int n = 0; n <= 40; ++n)
    cx.test([&] { return mc::str("make_sets(0..70) on ", n, " elements"); },
            [&] {
              for(int m = 0; m <= 70; ++m)
                for(int pat = 0; pat < (n < 2 ? 1 : 3); ++pat) {
                  disjoint_sets d(n);
                  Model mod(n);
                  std::vector<Op> h;
                  auto go = [&](Op const& o) {
                    h.push_back(o);
                    apply_op(d, mod, o, false, h);
                    cx.trans();
                  };
                  auto look = [&](bool norm) {
                    MC_CHECK(int(d.size()) == mod.size() && int(d.n_sets()) == mod.n_sets(), "after ", hist_str(h), "size() = ", d.size(), " n_sets() = ", d.n_sets(), " expected ", mod.n_sets());
                    disjoint_sets c(d);
                    std::vector<int> rep(mod.size(), -1);
                    for(int i = 0; i < mod.size(); ++i) {
                      std::size_t r = c.find_root(i);
                      MC_CHECK(r < c.size() && mod.label[r] == mod.label[i], "after ", hist_str(h), "find_root(", i, ") = ", r);
                      MC_CHECK(!norm || int(r) == mod.label[i], "after ", hist_str(h), "find_root(", i, ") = ", r, " is not the smallest member");
                      int& x = rep[mod.label[i]];
                      MC_CHECK(x < 0 || x == int(r), "after ", hist_str(h), "two representatives ", x, " and ", r, " of one set");
                      x = int(r);
                    }
                  };
                  if(pat == 1) go({UNION, n - 1, n / 2});
                  if(pat == 2)
                    for(int i = 1; i < n; ++i)
                      go({UNION, i - 1, i});
                  go({MAKES, m, 0});
                  look(false);
                  go({MAKE, 0, 0});
                  look(false);
                  for(int i = 0; i < 3 && n + m > 2; ++i)
                    go({UNION, (n + m - 1 + i) % (n + m + 1), i * 7 % (n + m + 1)});
                  look(false);
                  go({NORMALIZE, 0, 0});
                  look(true);
                  go({COMPRESS, 0, 0});
                  look(true);
                  cx.validated();
                  cx.state(mod.hash());
                }
            });
}
FAMILY(unions_only) {
  std::vector<std::pair<int, int>> b = cx.thorough() ? std::vector<std::pair<int, int>>{{3, 7}, {4, 6}, {5, 5}, {6, 5}} : std::vector<std::pair<int, int>>{{3, 6}, {4, 5}, {5, 4}, {6, 4}};
  for(auto const& p : b) {
    cx.bound(mc::str("from ", p.first, " sets: all histories of ", p.second, " operations without separate queries"));
    Explorer{cx, false, p.first, {}}.run(p.first, p.second);
  }
}
// Every way to merge n elements into fewer sets through roots (all shapes of
// the internal trees), then every subset of root queries, then every tail
FAMILY(trees) {
  int N = cx.pick(6, 7);
  for(int n = 2; n <= N; ++n) {
    bool queries = n <= cx.pick(5, 6);
    cx.bound(mc::str(n, " elements: all sequences of effective unions of current roots (both argument orders)", queries ? ", all subsets of elements queried afterwards" : ", no, single or all queries afterwards", ", then all of {normalize, compress+normalize, normalize+normalize, compress+union+normalize}"));
    std::vector<Op> h;
    std::function<void(Node const&)> tail = [&](Node const& s) {
      unsigned all = (1u << n) - 1;
      for(unsigned q = 0; q <= all; ++q) {
        if(!queries && q != all && (q & (q - 1))) continue;
        Node t(s);
        auto mark = h.size();
        for(int i = 0; i < n; ++i)
          if(q >> i & 1) {
            h.push_back({FIND, i, 0});
            apply_op(t.d, t.m, h.back(), false, h);
          }
        auto mark2 = h.size();
        for(int k = 0; k < 4; ++k) {
          Node u(t);
          std::vector<Op> add;
          if(k == 1 || k == 3) add.push_back({COMPRESS, 0, 0});
          if(k == 3) add.push_back({UNION, n - 1, 0});
          add.push_back({NORMALIZE, 0, 0});
          if(k == 2) add.push_back({NORMALIZE, 0, 0});
          bool norm = false;
          for(auto const& o : add) {
            h.push_back(o);
            norm = apply_op(u.d, u.m, o, norm, h);
            cx.trans();
          }
          observe(u.d, u.m, norm, h);
          h.resize(mark2);
          cx.validated();
          cx.state(mc::hcomb(u.m.hash(), k));
        }
        h.resize(mark);
      }
    };
    std::function<void(Node const&)> rec = [&](Node const& s) {
      tail(s);
      for(int x = 0; x < n; ++x)
        for(int y = 0; y < n; ++y)
          if(x != y && s.m.label[x] == x && s.m.label[y] == y) {
            Node t(s);
            h.push_back({UNION, x, y});
            apply_op(t.d, t.m, h.back(), false, h);
            rec(t);
            h.pop_back();
          }
    };
    for(int x = 0; x < n; ++x)
      for(int y = 0; y < n; ++y)
        for(int z = 0; z < n && !cx.done(); ++z)
          for(int w = 0; w < n; ++w) {
            if(x == y || z == w || (n == 2 && (z || w != 1))) continue;
            Model m(n);
            m.join(x, y);
            if(n > 2 && (m.label[z] != z || m.label[w] != w)) continue;
            cx.test([&] { return mc::str(n, " elements: unions (", x, ",", y, ") (", z, ",", w, ") ..."); },
                    [&] {
                      Node s{disjoint_sets(n), Model(n), false};
                      h = {{UNION, x, y}};
                      apply_op(s.d, s.m, h.back(), false, h);
                      if(n > 2) {
                        h.push_back({UNION, z, w});
                        apply_op(s.d, s.m, h.back(), false, h);
                      }
                      rec(s);
                    });
          }
  }
}
// Structured unions of many elements: deep trees and all arithmetic patterns
FAMILY(large) {
  int N = cx.pick(600, 3000);
  cx.bound(mc::str("up to ", N, " elements: unions by stride s (all s = 1..40), by halving, in increasing, decreasing and alternating order, compress/normalize before and after further unions"));
  for(int n : {1, 2, 7, 64, 65, 100, N})
    for(int s = 1; s <= 40; ++s)
      for(int mode = 0; mode < 6; ++mode)
        cx.test([&] { return mc::str(n, " elements, stride ", s, " order ", mode); },
                [&] {
                  disjoint_sets d(n);
                  Model m(n);
                  std::vector<std::pair<int, int>> e;
                  if(mode < 3)
                    for(int i = 0; i + s < n; ++i)
                      e.push_back({i, i + s});
                  else
                    for(int len = 1; len < n; len *= 2)
                      for(int i = 0; i + len < n; i += 2 * len)
                        if((i / (2 * len)) % s != s - 1 || s == 1) e.push_back({i + (mode == 4 ? len - 1 : 0), std::min(n - 1, i + len + (mode == 5 ? len - 1 : 0))});
                  if(mode == 1) std::reverse(e.begin(), e.end());
                  if(mode == 2)
                    for(std::size_t i = 0; i < e.size(); i += 2)
                      std::swap(e[i].first, e[i].second), std::swap(e[i], e[e.size() - 1 - i]);
                  // fast model: labels through a plain graph search at the end
                  auto labels = [&](std::size_t k) {
                    std::vector<std::vector<int>> adj(n);
                    for(std::size_t i = 0; i < k; ++i) {
                      adj[e[i].first].push_back(e[i].second);
                      adj[e[i].second].push_back(e[i].first);
                    }
                    std::vector<int> l(n, -1);
                    for(int r = 0; r < n; ++r) {
                      if(l[r] >= 0) continue;
                      std::vector<int> st{r};
                      l[r] = r;
                      while(!st.empty()) {
                        int v = st.back();
                        st.pop_back();
                        for(int w : adj[v])
                          if(l[w] < 0) {
                            l[w] = r;
                            st.push_back(w);
                          }
                      }
                    }
                    return l;
                  };
                  auto look = [&](std::size_t k, bool norm) {
                    m.label = labels(k);
                    MC_CHECK(int(d.n_sets()) == m.n_sets(), "n_sets() = ", d.n_sets(), " expected ", m.n_sets(), " after ", k, " unions");
                    disjoint_sets c(d);
                    std::vector<int> rep(n, -1);
                    for(int i = 0; i < n; ++i) {
                      int r = int(c.find_root(i));
                      MC_CHECK(m.label[r] == m.label[i], "find_root(", i, ") = ", r, " after ", k, " unions");
                      int& x = rep[m.label[i]];
                      MC_CHECK(x < 0 || x == r, "two representatives ", x, " and ", r, " of one set");
                      x = r;
                      if(norm) MC_CHECK(r == m.label[i], "find_root(", i, ") = ", r, " is not the smallest member ", m.label[i], " after ", k, " unions");
                    }
                  };
                  for(std::size_t i = 0; i < e.size(); ++i) {
                    d.set_union(e[i].first, e[i].second);
                    cx.trans();
                    if(i == e.size() / 2) {
                      look(i + 1, false);
                      d.compress_sets();
                      look(i + 1, false);
                      d.normalize_sets();
                      look(i + 1, true);
                    }
                  }
                  look(e.size(), false);
                  disjoint_sets c(d);
                  d.normalize_sets();
                  look(e.size(), true);
                  d = c;
                  d.compress_sets();
                  look(e.size(), false);
                  d.normalize_sets();
                  look(e.size(), true);
                  cx.validated();
                  cx.state(m.hash());
                });
}
