// C20 for other number types: amplitudes that need every digit of their own type
#include "hist.hpp"

template <> struct Vals<float> {
  static float v(int k) { return k == 0 ? 3.f + std::ldexp(1.f, -20) : k == 1 ? -3.f - std::ldexp(1.f, -20) : -11.f; }
  using Other = int;
  static int other() { return 2; }
};
template <> struct Vals<long double> {
  static long double v(int k) { return k == 0 ? 3 + std::ldexp(1.L, -59) : k == 1 ? -3 - std::ldexp(1.L, -59) : -11 - std::ldexp(1.L, -58); }
  using Other = double;
  static double other() { return 2.5; }
};
template <> struct Vals<long> {
  static long v(int k) { return k == 0 ? (1L << 58) + 1 : k == 1 ? -(1L << 58) - 1 : -(3L << 56) - 1; }
  using Other = int;
  static int other() { return 2; }
};
template <> struct Vals<std::complex<float>> {
  static std::complex<float> v(int k) {
    float x = Vals<float>::v(0), y = Vals<float>::v(2);
    return k == 0 ? std::complex<float>(x, y) : k == 1 ? std::complex<float>(-x, -y) : std::complex<float>(0, x);
  }
  using Other = float;
  static float other() { return 2.5; }
};
template <> struct Vals<std::complex<long double>> {
  static std::complex<long double> v(int k) {
    long double x = Vals<long double>::v(0), y = Vals<long double>::v(2);
    return k == 0 ? std::complex<long double>(x, y) : k == 1 ? std::complex<long double>(-x, -y) : std::complex<long double>(0, x);
  }
  using Other = long double;
  static long double other() { return 2.5; }
};
template <typename A> static void all_types(mc::Ctx& cx, char const* name) {
  int L = cx.pick(2, 3);
  cx.bound(mc::str(name, ": all histories up to length ", L, " on the 14 vector types, amplitudes that no shorter type can hold, exact comparison"));
  every_type<A, Histories>(cx, L);
}
FAMILY(histories_float) { all_types<float>(cx, "float"); }
FAMILY(histories_long) { all_types<long>(cx, "long"); }
FAMILY(histories_long_double) { all_types<long double>(cx, "long double"); }
FAMILY(histories_complex_float) { all_types<std::complex<float>>(cx, "complex<float>"); }
FAMILY(histories_complex_long_double) { all_types<std::complex<long double>>(cx, "complex<long double>"); }
