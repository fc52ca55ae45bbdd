// C23: amplitudes around the zero tolerance and of other number types seen through a view
#include "viewtol.hpp"
using namespace refop;
FAMILY(number_types) {
  struct Sec {
    std::vector<ES> set;
    int N;
  };
  std::vector<Sec> secs{{{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}}, 2}, {{{0, 2, 0}, {0, 2, 1}, {0, 2, 2}}, 3}, {{{0, 2, 0}, {0, 2, 1}, {1, 4, 0}}, 1}};
  for(auto const& s : secs) {
    HS hs = build(s.set);
    auto list = n_fermion_sector_basis_states(hs, s.N);
    viewtol::run(cx, mc::str(set_str(s.set), " N=", s.N), list, [&](auto& v, auto&& use) {
      auto view = make_nfs_view(v, hs, s.N);
      auto const cview = make_const_nfs_view(v, hs, s.N);
      use(view, cview);
    });
  }
}
