// C22: amplitudes around the zero tolerance and of other number types seen through a view
#include "viewtol.hpp"
using namespace refop;
FAMILY(number_types) {
  std::vector<std::vector<sv_index_type>> lists{{3, 1, 2}, {7}, {0, 5, 4, 9, 1ull << 40}};
  for(auto const& list : lists) {
    basis_mapper m(list);
    viewtol::run(cx, mc::str("map of ", mc::vec_str(list)), list, [&](auto& v, auto&& use) {
      auto view = m.make_view(v);
      auto const cview = m.make_const_view(v);
      use(view, cview);
    });
  }
}
