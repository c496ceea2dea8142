// M01: integer comparison, conversion and bit utilities are exact.
#include "vp.h"
#include "best/container/option.h"
#include "best/math/bit.h"
#include "best/math/int.h"

template <class A, class B>
static bool lt(A a, B b) {  // mathematical a < b, all types up to 64 bits
  if constexpr (std::is_signed_v<A> == std::is_signed_v<B>) return a < b;
  else if constexpr (std::is_signed_v<A>) return a < 0 || (std::make_unsigned_t<A>)a < b;
  else return b > 0 && a < (std::make_unsigned_t<B>)b;
}

template <class A, class B>
static void cmp_pair() {
  vp_no_crash(true);
  A a = any<A>("a"); B b = any<B>("b");
  auto c = best::int_cmp(a, b);
  if (c < 0) { MUST(lt(a, b), "int_cmp says less"); REACH("less"); }
  else if (c > 0) { MUST(lt(b, a), "int_cmp says greater"); REACH("greater"); }
  else { MUST(!lt(a, b) && !lt(b, a), "int_cmp says equal"); REACH("equal"); }
  // fits / checked_cast: exact
  bool fits = !lt(a, best::min_of<B>) && !lt(best::max_of<B>, a);
  bool got = best::int_fits<B>(a);
  MUST(fits == got, "int_fits disagrees with the value range");
  best::option<B> cc = best::checked_cast<B>(a);
  MUST(cc.has_value() == fits, "checked_cast is none exactly when the value does not fit");
  if (fits) {
    B v = *cc;
    MUST(!lt(v, a) && !lt(a, v), "checked_cast changes the value");
    REACH("cast");
  }
}
#define PAIR(A, B) W(cmp_##A##_##B) { cmp_pair<A, B>(); }
#define PAIRS(A) PAIR(A, int8_t) PAIR(A, uint8_t) PAIR(A, int16_t) PAIR(A, uint16_t) PAIR(A, int32_t) PAIR(A, uint32_t) PAIR(A, int64_t) PAIR(A, uint64_t)
PAIRS(int8_t) PAIRS(uint8_t) PAIRS(int16_t) PAIRS(uint16_t) PAIRS(int32_t) PAIRS(uint32_t) PAIRS(int64_t) PAIRS(uint64_t)

// limits, decided at the type level
template <class I> constexpr bool limits() {
  return best::bits_of<I> == sizeof(I) * 8 && best::max_of<I> == std::numeric_limits<I>::max() &&
         best::min_of<I> == std::numeric_limits<I>::min();
}
#include <limits>
template <class I> static void limits_check() {
  MUST(best::bits_of<I> == sizeof(I) * 8, "bits_of");
  MUST(best::max_of<I> == std::numeric_limits<I>::max(), "max_of");
  MUST(best::min_of<I> == std::numeric_limits<I>::min(), "min_of");
  I x = any<I>("x");
  using U = std::make_unsigned_t<I>;
  MUST((U)best::to_signed(x) == (U)x && std::is_signed_v<decltype(best::to_signed(x))>, "to_signed keeps the bits");
  MUST((U)best::to_unsigned(x) == (U)x && std::is_unsigned_v<decltype(best::to_unsigned(x))>, "to_unsigned keeps the bits");
  I y = any<I>("y");
  using S = std::make_signed_t<I>;
  auto u = best::unsigned_cmp(x, y), s = best::signed_cmp(x, y);
  if (u < 0) MUST((U)x < (U)y, "unsigned_cmp less"); else if (u > 0) MUST((U)x > (U)y, "unsigned_cmp greater"); else MUST(x == y, "unsigned_cmp equal");
  if (s < 0) MUST((S)x < (S)y, "signed_cmp less"); else if (s > 0) MUST((S)x > (S)y, "signed_cmp greater"); else MUST(x == y, "signed_cmp equal");
  REACH("limits");
}

template <class I> static void minmax() {
  I a = any<I>("a"), b = any<I>("b"), c = any<I>("c");
  I m = best::min(a, b, c), M = best::max(a, b, c);
  MUST(m <= a && m <= b && m <= c, "min is not a lower bound");
  MUST(m == a || m == b || m == c, "min is not one of its arguments");
  MUST(M >= a && M >= b && M >= c, "max is not an upper bound");
  MUST(M == a || M == b || M == c, "max is not one of its arguments");
  MUST(best::min(a) == a && best::max(a) == a, "min/max of one value");
  REACH("minmax");
}

template <class I> static void shifts() {
  vp_no_crash(true);
  using U = std::make_unsigned_t<I>;
  using S = std::make_signed_t<I>;
  constexpr uint32_t w = sizeof(I) * 8;
  I x = any<I>("x");
  uint32_t n = any<uint32_t>("n");
  if (vp_split(n >= w)) {
    MUST(best::shift_left(x, n) == 0, "oversized left shift saturates to zero");
    MUST(best::shift_right(x, n) == 0, "oversized right shift saturates to zero");
    MUST(best::shift_sign(x, n) == ((S)x < 0 ? (I)-1 : (I)0) || std::is_unsigned_v<I>, "oversized sign shift saturates to the sign");
    REACH("big");
    return;
  }
  n = vp_pick(0, w - 1);
  MUST((U)best::shift_left(x, n) == (U)((U)x << n), "left shift");
  MUST((U)best::shift_right(x, n) == (U)((U)x >> n), "logical right shift");
  MUST((U)best::shift_sign(x, n) == (U)((S)x >> n), "arithmetic right shift");
  if constexpr (std::is_unsigned_v<I>) {
    U l = best::rotate_left(x, n), r = best::rotate_right(x, n);
    U el = n == 0 ? x : (U)((U)(x << n) | (U)(x >> (w - n)));
    U er = n == 0 ? x : (U)((U)(x >> n) | (U)(x << (w - n)));
    MUST(l == el, "rotate left");
    MUST(r == er, "rotate right");
  }
  REACH("small");
}

template <class I> static void bitcounts() {
  vp_no_crash(true);
  using U = std::make_unsigned_t<I>;
  constexpr uint32_t w = sizeof(I) * 8;
  I x = any<I>("x");
  U u = (U)x;
  MUST(best::count_ones(x) == (uint32_t)__builtin_popcountll((uint64_t)u), "count_ones");
  if constexpr (sizeof(I) >= 4) MUST(best::count_zeros(x) == (uint32_t)__builtin_popcountll((uint64_t)(U)~u), "count_zeros");
  // leading / trailing counts: partition on the answer
  uint32_t lz = best::leading_zeros(x), tz = best::trailing_zeros(x), lo = best::leading_ones(x), to = best::trailing_ones(x);
  size_t k = vp_pick(0, w);
  if (vp_split(lz == k)) MUST(k == w ? u == 0 : ((U)(u >> (w - 1 - k)) == 1), "leading_zeros");
  if (vp_split(lo == k)) MUST(k == w ? (U)~u == 0 : ((U)((U)~u >> (w - 1 - k)) == 1), "leading_ones");
  if (u != 0 && k < w && vp_split(((U)(u >> k) & 1) && (k == 0 || (U)(u << (w - k)) == 0))) MUST(tz == k, "trailing_zeros");
  if (u == 0) MUST(tz == w && lz == w, "zero has no set bit");
  if ((U)~u != 0 && k < w && vp_split(!((U)(u >> k) & 1) && (k == 0 || (U)((U)~u << (w - k)) == 0))) MUST(to == k, "trailing_ones");
  if ((U)~u == 0) MUST(to == w && lo == w, "all ones");
  REACH("counts");
}

template <class U> static void pow2() {
  vp_no_crash(true);
  constexpr uint32_t w = sizeof(U) * 8;
  // partition on the magnitude: 2^k <= x < 2^(k+1), or x == 0
  size_t k = vp_pick(0, w);
  U x = any<U>("x");
  if (k == w) vp_assume(x == 0);
  else { vp_assume(x >= (U)((U)1 << k)); if (k + 1 < w) vp_assume(x < (U)((U)1 << (k + 1))); }
  bool big = k == w - 1;
  U next = k == w ? (U)1 : big ? (U)0 : (U)((U)1 << (k + 1));
  MUST(best::next_pow2_minus1(x) == (U)(next - 1), "next_pow2_minus1");
  MUST(best::wrapping_next_pow2(x) == next, "wrapping_next_pow2");
  auto c = best::checked_next_pow2(x);
  MUST(c.has_value() == !big, "checked_next_pow2 is none exactly on overflow");
  if (!big) MUST(*c == next, "checked_next_pow2 value");
  MUST(best::bits_for(x) == (k == w ? 0 : k + 1), "bits_for");
  if (k == w) MUST(!best::is_pow2(x), "zero is not a power of two");
  else MUST(best::is_pow2(x) == (x == (U)((U)1 << k)), "is_pow2");
  if (big) { vp_no_crash(false); REACH("overflow"); best::next_pow2(x); vp_violation("next_pow2 must crash on overflow"); }
  MUST(best::next_pow2(x) == next, "next_pow2");
  REACH("pow2");
}
#define EACH(F, name) \
  W(name##_i8) { F<int8_t>(); } W(name##_u8) { F<uint8_t>(); } W(name##_i16) { F<int16_t>(); } W(name##_u16) { F<uint16_t>(); } \
  W(name##_i32) { F<int32_t>(); } W(name##_u32) { F<uint32_t>(); } W(name##_i64) { F<int64_t>(); } W(name##_u64) { F<uint64_t>(); }
EACH(limits_check, limits)
EACH(minmax, minmax)
EACH(shifts, shifts)
EACH(bitcounts, bits)
W(pow2_u8) { pow2<uint8_t>(); }
W(pow2_u16) { pow2<uint16_t>(); }
W(pow2_u32) { pow2<uint32_t>(); }
W(pow2_u64) { pow2<uint64_t>(); }

CONTROL(int_cmp) {
  int64_t a = any<int64_t>("a"); uint64_t b = any<uint64_t>("b");
  MUST((best::int_cmp(a, b) < 0) == ((uint64_t)a < b), "control: wrong oracle");
}
