// C30: bit-pattern primitives against bit-by-bit definitions
#include "mc.hpp"
#include <libcommute/loperator/bit_ops.hpp>
namespace d = libcommute::detail;
using u64 = std::uint64_t;

// --- definitions ------------------------------------------------------------------
static unsigned def_pop(u64 x) {
  unsigned n = 0;
  for(int i = 0; i < 64; ++i)
    n += unsigned(x >> i & 1);
  return n;
}
static unsigned def_ctz(u64 x) {
  unsigned n = 0;
  while(!(x >> n & 1))
    ++n;
  return n;
}
static u64 def_deposit(u64 src, u64 mask) {
  u64 r = 0;
  int k = 0;
  for(int i = 0; i < 64; ++i)
    if(mask >> i & 1) {
      r |= (src >> k & 1) << i;
      ++k;
    }
  return r;
}
static u64 def_extract(u64 val, u64 mask) {
  u64 r = 0;
  int k = 0;
  for(int i = 0; i < 64; ++i)
    if(mask >> i & 1) {
      r |= (val >> i & 1) << k;
      ++k;
    }
  return r;
}
static void check_one(u64 x) {
  unsigned p = def_pop(x);
  MC_CHECK(d::popcount(x) == p, "popcount(", x, ") = ", d::popcount(x), " expected ", p);
  MC_CHECK(d::parity_popcount(x) == bool(p & 1), "parity_popcount(", x, ") = ", d::parity_popcount(x));
  if(x) MC_CHECK(d::count_trailing_zeros(x) == def_ctz(x), "count_trailing_zeros(", x, ") = ", d::count_trailing_zeros(x));
  if(x <= u64(1) << 63) {
    u64 q = 1;
    while(q < x)
      q <<= 1;
    MC_CHECK(d::next_pow2(x) == q, "next_pow2(", x, ") = ", d::next_pow2(x), " expected ", q);
  }
}
static void check_masked(u64 src, u64 mask) {
  MC_CHECK(d::deposit_bits(src, mask) == def_deposit(src, mask), "deposit_bits(", src, ",", mask, ") = ", d::deposit_bits(src, mask));
  MC_CHECK(d::extract_bits(src, mask) == def_extract(src, mask), "extract_bits(", src, ",", mask, ") = ", d::extract_bits(src, mask));
}

FAMILY(all_16_bit_patterns) {
  cx.bound("all 16-bit patterns at all 49 positions, and their complements: popcount, parity, trailing zeros, next power of two");
  for(int sh = 0; sh <= 48; ++sh)
    for(int hi = 0; hi < 16; ++hi)
      cx.test([&] { return mc::str("patterns ", hi * 4096, "... << ", sh); },
              [&] {
                for(u64 x = u64(hi) << 12; x < u64(hi + 1) << 12; ++x) {
                  check_one(x << sh);
                  check_one(~(x << sh));
                }
                cx.trans(8192 * 4);
                cx.validated(8192);
                cx.state(mc::hcomb(sh, hi));
              });
}
FAMILY(sparse_patterns) {
  cx.bound("all 64-bit patterns with at most 4 set bits (3 in the quick tier) or at most 3 (2) clear bits; all patterns of up to 2 runs; 2^k + j for |j| <= 64; 2^n for n = 0..63");
  int K = cx.pick(3, 4);
  for(int a = -1; a < 64; ++a)
    cx.test([&] { return mc::str("highest bit ", a); },
            [&] {
              u64 n = 0;
              std::function<void(int, u64, int)> rec = [&](int top, u64 x, int k) {
                check_one(x);
                if(k < K) check_one(~x);
                ++n;
                if(k < K)
                  for(int i = 0; i < top; ++i)
                    rec(i, x | u64(1) << i, k + 1);
              };
              if(a < 0) check_one(0), check_one(~u64(0));
              else
                rec(a, u64(1) << a, 1);
              for(int lo = 0; a >= 0 && lo <= a; ++lo) {
                u64 run = (a == 63 ? ~u64(0) : (u64(1) << (a + 1)) - 1) & ~((u64(1) << lo) - 1);
                check_one(run);
                check_one(~run);
                for(int k = 0; k < lo; ++k)
                  for(int l = 0; l <= k; ++l) {
                    u64 r2 = ((u64(1) << (k + 1)) - 1) & ~((u64(1) << l) - 1);
                    check_one(run | r2);
                    ++n;
                  }
              }
              if(a >= 0) {
                MC_CHECK(d::pow2(a) == u64(1) << a, "pow2(", a, ")");
                for(u64 j = 0; j <= 64; ++j) {
                  check_one((u64(1) << a) + j);
                  check_one((u64(1) << a) - j);
                }
              }
              cx.trans(n);
              cx.validated(n);
              cx.state(a + 1000);
            });
}
FAMILY(all_32_bit_patterns) {
  int bits = cx.pick(22, 30);
  cx.bound(mc::str("all patterns of ", bits, " bits in the low, middle and high part of the word: popcount, parity, trailing zeros, next power of two, against counts maintained incrementally"));
  static std::vector<unsigned char> t16(1 << 16);
  if(t16[1] == 0)
    for(unsigned i = 1; i < t16.size(); ++i)
      t16[i] = (unsigned char)(t16[i >> 1] + (i & 1));
  for(int sh : {0, 64 - bits, (64 - bits) / 2})
    for(u64 blk = 0; blk < u64(1) << (bits - 14); ++blk) {
      if(cx.done()) return;
      cx.test([&] { return mc::str("block ", blk, " << ", sh); },
              [&] {
                for(u64 x = blk << 14; x < (blk + 1) << 14; ++x) {
                  u64 y = x << sh;
                  unsigned p = t16[x & 0xffff] + t16[x >> 16 & 0xffff];
                  if(d::popcount(y) != p) mc::fail(mc::str("popcount(", y, ") = ", d::popcount(y), " expected ", p));
                  if(d::parity_popcount(y) != bool(p & 1)) mc::fail(mc::str("parity_popcount(", y, ")"));
                  if(y) {
                    unsigned c = d::count_trailing_zeros(y);
                    if(c > 63 || !(y >> c & 1) || (y & ((u64(1) << c) - 1))) mc::fail(mc::str("count_trailing_zeros(", y, ") = ", c));
                    if(y <= u64(1) << 63) {
                      u64 q = d::next_pow2(y);
                      if((q & (q - 1)) || q < y || (q > 1 && q / 2 >= y)) mc::fail(mc::str("next_pow2(", y, ") = ", q));
                    }
                  }
                }
                cx.trans(4 << 14);
                cx.validated(1 << 14);
                cx.state(mc::hcomb(sh, blk));
              });
    }
}
FAMILY(masks_8_bits) {
  cx.bound("all 8-bit masks x all 8-bit values at all pairs of positions of mask and value differing by at most 8, with the outside bits of the value clear and set; masks spread by strides 1..9");
  for(int sh = 0; sh <= 56; ++sh)
    for(int m0 = 0; m0 < 256; ++m0)
      cx.test([&] { return mc::str("mask ", m0, " << ", sh); },
              [&] {
                u64 mask = u64(m0) << sh;
                uint64_t n = 0;
                for(int v = 0; v < 256; ++v) {
                  for(int s2 = std::max(0, sh - 8); s2 <= std::min(56, sh + 8); s2 += 4) {
                    check_masked(u64(v) << s2, mask);
                    check_masked(~(u64(v) << s2), mask);
                    n += 2;
                  }
                  check_masked(v, mask);
                  check_masked(~u64(v), mask);
                  check_masked(u64(v), ~mask);
                  check_masked(u64(v) << sh, ~mask);
                  check_masked(u64(v) * 0x0101010101010101ull, mask | 0x8000000000000001ull);
                  n += 5;
                }
                if(sh < 9) {
                  // the mask bits spread out by a stride
                  int st = sh + 1;
                  u64 w = 0;
                  for(int i = 0; i < 8; ++i)
                    if((m0 >> i & 1) && i * st < 64) w |= u64(1) << (i * st);
                  for(int v = 0; v < 256; ++v) {
                    check_masked(v, w);
                    check_masked(u64(v) * 0x0101010101010101ull, w);
                    check_masked(v, ~w);
                    check_masked(u64(v) << 40, ~w);
                    n += 4;
                  }
                }
                cx.trans(2 * n);
                cx.validated(n);
                cx.state(mc::hcomb(m0, sh));
              });
}
FAMILY(masks_wide) {
  cx.bound("all masks with at most 3 set or at most 3 clear bits and all masks of one run, every value with at most 1 set bit, all ones, all zeros, alternating bits");
  std::vector<u64> vals{0, ~u64(0), 0xaaaaaaaaaaaaaaaaull, 0x5555555555555555ull, 0x0123456789abcdefull};
  for(int i = 0; i < 64; i += 3)
    vals.push_back(u64(1) << i);
  for(int a = 0; a < 64; ++a)
    for(int b = 0; b <= a; ++b)
      cx.test([&] { return mc::str("masks with bits ", a, ",", b); },
              [&] {
                uint64_t n = 0;
                for(int c = 0; c <= b; ++c) {
                  u64 m = u64(1) << a | u64(1) << b | u64(1) << c;
                  for(u64 v : vals) {
                    check_masked(v, m);
                    check_masked(v, ~m);
                    n += 2;
                  }
                }
                u64 run = (a == 63 ? ~u64(0) : (u64(1) << (a + 1)) - 1) & ~((u64(1) << b) - 1);
                for(u64 v : vals) {
                  check_masked(v, run);
                  ++n;
                }
                cx.trans(2 * n);
                cx.validated(n);
                cx.state(mc::hcomb(a, b + 100));
              });
}
