// A state vector type defined by the user, with nothing but the documented interface
#pragma once
#include "mc.hpp"
#include <libcommute/loperator/state_vector.hpp>
#include <cstdint>
#include <utility>
#include <vector>

namespace user {
// unordered list of (index, amplitude) pairs; may hold explicit zeros, checks every index
template <typename T> struct list_vector {
  uint64_t n = 0;
  std::vector<std::pair<uint64_t, T>> items;
  explicit list_vector(uint64_t n_) : n(n_) {}
};
template <typename T> void check_index(list_vector<T> const& sv, libcommute::sv_index_type i) { MC_CHECK(i < sv.n, "a user-defined state vector of size ", sv.n, " was asked for element ", i); }
template <typename T> T get_element(list_vector<T> const& sv, libcommute::sv_index_type i) {
  check_index(sv, i);
  for(auto const& p : sv.items)
    if(p.first == i) return p.second;
  return T(0);
}
template <typename T, typename U> void update_add_element(list_vector<T>& sv, libcommute::sv_index_type i, U const& value) {
  check_index(sv, i);
  for(auto& p : sv.items)
    if(p.first == i) {
      p.second += value;
      return;
    }
  sv.items.insert(sv.items.begin(), {i, T(value)});
}
template <typename T> void set_zeros(list_vector<T>& sv) { sv.items.clear(); }
template <typename T> list_vector<T> zeros_like(list_vector<T> const& sv) { return list_vector<T>(sv.n); }
template <typename T, typename Functor> void foreach(list_vector<T> const& sv, Functor&& f) {
  for(auto const& p : sv.items)
    if(!(p.second == T(0))) f(p.first, p.second);
}
} // namespace user
namespace libcommute {
template <typename T> struct element_type<user::list_vector<T>> {
  using type = T;
};
template <typename T> struct element_type<user::list_vector<T> const> {
  using type = T;
};
} // namespace libcommute
