// C20: operators between state vectors of all types
#include "pairs.hpp"
template <typename Src> struct Row {
  static void run(mc::Ctx& cx) { every_type<cd, SrcOf<Src>::template G>(cx); }
};
FAMILY(pairs_complex) {
  cx.bound("same with complex amplitudes");
  every_type<cd, Row>(cx);
}
