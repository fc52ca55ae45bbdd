// C20: operators between state vectors of all types
#include "pairs.hpp"
template <typename Src> struct Row {
  static void run(mc::Ctx& cx) { every_type<double, SrcOf<Src>::template G>(cx); }
};
FAMILY(pairs_real) {
  cx.bound("all 14 x 14 pairs of source and destination types (double), 3 operators, all 81 amplitude patterns, dirty destinations, const and non-const sources");
  every_type<double, Row>(cx);
}
