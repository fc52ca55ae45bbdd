// C20: operators between state vectors of all types
#include "pairs.hpp"
template <typename Src> struct Row {
  static void run(mc::Ctx& cx) { every_type<cd, SrcOf<Src>::template G>(cx); }
};
FAMILY(pairs_mixed) {
  cx.bound("same from real sources to complex destinations");
  every_type<double, Row>(cx);
}
