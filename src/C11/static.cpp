#include "fact.hpp"
WORLD(static_world, st);
FAMILY(static_indices_) {
  cx.bound("static indices: packs of length 0..3 over int/std::string/const char*/double, all values of a pool; 4 scalar types, multiplicities 2,3,4,5,6,9");
  all<static_world>(cx, "()", std::tuple<>());
  for(int i : INTS)
    all<static_world>(cx, mc::str("(", i, ")"), std::make_tuple(i), i);
  for(auto const& s : STRS) {
    all<static_world>(cx, "(string " + s + ")", std::make_tuple(s), s);
    char const* p = s.c_str();
    all<static_world>(cx, "(const char* " + s + ")", std::make_tuple(s), p);
  }
  for(int i : INTS)
    for(auto const& s : STRS) {
      all<static_world>(cx, mc::str("(", i, ",", s, ")"), std::make_tuple(i, s), i, s);
      all<static_world>(cx, mc::str("(", s, ",", i, ")"), std::make_tuple(s, i), s, i);
    }
  for(int i : {0, 1, 2})
    for(int j : {0, 1, 2})
      for(int k : {0, 1}) {
        all<static_world>(cx, mc::str("(", i, ",", j, ",", k, ")"), std::make_tuple(i, j, k), i, j, k);
        all<static_world>(cx, mc::str("(", i, ",", j, ",'x',", k, ")"), std::make_tuple(i, j, std::string("x"), k), i, j, std::string("x"), k);
      }
  all<static_world>(cx, "(1.5)", std::make_tuple(1.5), 1.5);
  cx.test([] { return "string literals"; },
          [&] {
            expect<double>(cx, st::c_dag("up", 1), {{1, {{0, 1, 0}}}}, std::make_tuple(std::string("up"), 1), "c_dag literal");
            expect<double>(cx, st::n("up", "dn"), {{1, {{0, 1, 0}, {0, 0, 0}}}}, std::make_tuple(std::string("up"), std::string("dn")), "n literal");
            expect<double>(cx, st::a("up"), {{1, {{1, 0, 0}}}}, std::make_tuple(std::string("up")), "a literal");
            expect<double>(cx, st::S_p<3>(2, "up"), {{1, {{2, 0, 3}}}}, std::make_tuple(2, std::string("up")), "S_p literal");
            expect<CD>(cx, st::S_x("x", 1), {{0.5, {{2, 0, 2}}}, {0.5, {{2, 1, 2}}}}, std::make_tuple(std::string("x"), 1), "S_x literal");
            expect<CD>(cx, st::S_y<4>("x"), {{CD(0, -0.5), {{2, 0, 4}}}, {CD(0, 0.5), {{2, 1, 4}}}}, std::make_tuple(std::string("x")), "S_y literal");
          });
}
