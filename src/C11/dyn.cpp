#include "fact.hpp"
WORLD(dynamic_world, dy);
template <typename... A> static std::tuple<dy::dyn_indices> dt(A const&... a) {
  dy::dyn_indices::indices_t v{std::variant<int, std::string>(a)...};
  return std::make_tuple(dy::dyn_indices(v));
}
FAMILY(dynamic_indices_) {
  cx.bound("dynamic indices: sequences of length 0..3, all values of a pool");
  all<dynamic_world>(cx, "()", dt());
  for(int i : INTS)
    all<dynamic_world>(cx, mc::str("(", i, ")"), dt(i), i);
  for(auto const& s : STRS)
    all<dynamic_world>(cx, "(string " + s + ")", dt(s), s);
  for(int i : INTS)
    for(auto const& s : STRS) {
      all<dynamic_world>(cx, mc::str("(", i, ",", s, ")"), dt(i, s), i, s);
      all<dynamic_world>(cx, mc::str("(", s, ",", i, ")"), dt(s, i), s, i);
    }
  for(int i : {0, 1, 2})
    for(int j : {0, 1, 2})
      for(auto const& s : STRS)
        all<dynamic_world>(cx, mc::str("(", i, ",", s, ",", j, ")"), dt(i, s, j), i, s, j);
}

