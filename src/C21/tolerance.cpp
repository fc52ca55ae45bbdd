// C21: amplitudes around the zero tolerance and of other number types seen through a view
#include "viewtol.hpp"
using namespace refop;
FAMILY(number_types) {
  std::vector<std::vector<ES>> sets{{{0, 2, 0}, {0, 2, 1}}, {{1, 3, 0}, {2, 3, 0}}, {{1, 5, 0}, {0, 2, 0}}};
  for(auto const& s : sets) {
    HS hs = build(s);
    viewtol::run(cx, set_str(s), states(layout(s)), [&](auto& v, auto&& use) {
      auto view = make_comp_state_view(v, hs);
      auto const cview = make_const_comp_state_view(v, hs);
      use(view, cview);
    });
  }
}
