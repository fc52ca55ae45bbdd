// A user-defined scalar type: Gaussian integers with binary operators only
// (no compound assignments, no default constructor).
#pragma once
#include <complex>
#include <iostream>
#include <libcommute/scalar_traits.hpp>
#include <libcommute/utility.hpp>
#include <stdexcept>

struct Zi {
  long re, im;
  Zi() = delete;
  Zi(long r) : re(r), im(0) {}
  Zi(int r) : re(r), im(0) {}
  Zi(long r, long i) : re(r), im(i) {}
  friend bool operator==(Zi const& a, Zi const& b) { return a.re == b.re && a.im == b.im; }
  friend bool operator!=(Zi const& a, Zi const& b) { return !(a == b); }
  Zi operator-() const { return {-re, -im}; }
  friend Zi operator+(Zi const& a, Zi const& b) { return {a.re + b.re, a.im + b.im}; }
  friend Zi operator-(Zi const& a, Zi const& b) { return {a.re - b.re, a.im - b.im}; }
  friend Zi operator*(Zi const& a, Zi const& b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
  friend std::ostream& operator<<(std::ostream& os, Zi const& a) { return os << "{" << a.re << "," << a.im << "}"; }
};
namespace libcommute {
template <> struct scalar_traits<Zi> {
  static bool is_zero(Zi const& x) { return x.re == 0 && x.im == 0; }
  static Zi make_const(double x) {
    if(std::nearbyint(x) != x) throw std::runtime_error("not an integer");
    return {long(x), 0};
  }
  static Zi make_const(var_number const& x) {
    if(x.number_type != var_number::integer) throw std::runtime_error("not an integer");
    return {long(int(x)), 0};
  }
  static Zi conj(Zi const& x) { return {x.re, -x.im}; }
};
} // namespace libcommute
namespace ref {
inline std::complex<double> to_c(Zi const& s) { return {double(s.re), double(s.im)}; }
} // namespace ref
