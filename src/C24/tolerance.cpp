// C24: amplitudes around the zero tolerance and of other number types seen through a view
#include "viewtol.hpp"
using namespace refop;
FAMILY(number_types) {
  struct Sec {
    std::vector<ES> set;
    std::vector<sector_descriptor<HS>> sectors;
  };
  auto t = [](int i) { return std::make_tuple(i); };
  std::vector<Sec> secs{{{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}}, {{{t(0), t(2)}, 1}, {{t(1), t(3)}, 1}}},
                        {{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {1, 2, 0}}, {{{t(0), t(2)}, 1}}},
                        {{{0, 2, 0}, {0, 2, 1}, {2, 2, 0}}, {{{t(0)}, 0}, {{t(1)}, 1}}}};
  for(auto const& s : secs) {
    HS hs = build(s.set);
    auto list = n_fermion_multisector_basis_states(hs, s.sectors);
    viewtol::run(cx, mc::str(set_str(s.set), " ", s.sectors.size(), " sectors"), list, [&](auto& v, auto&& use) {
      auto view = make_nfms_view(v, hs, s.sectors);
      auto const cview = make_const_nfms_view(v, hs, s.sectors);
      use(view, cview);
    });
  }
}
