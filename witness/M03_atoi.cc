// M03: atoi and friends accept exactly the in-range numerals of the radix and
// return their value.
#include "vp.h"
#include <limits>
#include "best/text/format.h"
#include "best/math/conv.h"
#include "best/text/str.h"
#include "best/text/rune.h"
#include "best/text/utf16.h"
#include "best/text/utf8.h"

static int digit(uint8_t c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
struct Ref { bool ok; int64_t v; };
template <class I>
static Ref digits(const char* p, size_t n, bool neg, uint32_t radix) {
  if (n == 0) return {false, 0};
  int64_t v = 0;
  for (size_t i = 0; i < n; ++i) {
    int d = digit((uint8_t)p[i]);
    if (d >= (int)radix) return {false, 0};
    v = v * radix + d;  // the witness sizes keep this in 64 bits
  }
  if (neg) v = -v;
  if (v < (int64_t)std::numeric_limits<I>::min() || (v > 0 && (uint64_t)v > (uint64_t)std::numeric_limits<I>::max())) return {false, 0};
  return {true, v};
}
template <class I>
static Ref whole(const char* p, size_t n, uint32_t radix) {
  bool neg = false;
  if (n && (p[0] == '-' || p[0] == '+')) { neg = p[0] == '-'; ++p; --n; }
  return digits<I>(p, n, neg, radix);
}
template <class R> static void same(const R& r, Ref e) {
  if (r.ok().has_value() != e.ok) vp_violation("accepts exactly the in-range numerals");
  if (e.ok) { if ((int64_t)*r.ok() != e.v) vp_violation("parses to the numeral's value"); REACH("accept"); }
  else REACH("reject");
}
static void text(char* b, size_t n) {
  vp_bytes(b, n, "text");
  for (size_t i = 0; i < n; ++i) vp_assume((uint8_t)b[i] < 0x80);
}
template <class I> static void all(size_t maxn, uint32_t radix) {
  vp_no_crash(true);
  char b[24];
  size_t n = vp_pick(0, maxn);
  text(b, n);
  same(best::atoi<I>(best::pretext<best::utf8>(best::span(b, n)), radix), whole<I>(b, n, radix));
}
// longer numerals, near the bounds of the type: digits only after the sign
template <class I> static void big(size_t minn, size_t maxn, uint32_t radix) {
  vp_no_crash(true);
  char b[24];
  size_t n = vp_pick(minn, maxn);
  text(b, n);
  for (size_t i = 1; i < n; ++i) vp_assume(b[i] >= '0' && b[i] <= '9' && b[i] < '0' + (int)radix);
  vp_assume(b[0] == '-' || b[0] == '+' || (b[0] >= '0' && b[0] <= '9'));
  same(best::atoi<I>(best::pretext<best::utf8>(best::span(b, n)), radix), whole<I>(b, n, radix));
}
#define ALL(I) W(all_##I##_r10) { all<I>(3, 10); } W(all_##I##_r2) { all<I>(3, 2); } W(all_##I##_r16) { all<I>(3, 16); } W(all_##I##_r36) { all<I>(3, 36); }
ALL(int8_t) ALL(uint8_t) ALL(int16_t) ALL(uint16_t) ALL(int32_t) ALL(uint32_t) ALL(int64_t) ALL(uint64_t)
W(all_int8_t_r10_long) { all<int8_t>(5, 10); }
W(all_uint8_t_r10_long) { all<uint8_t>(5, 10); }
W(all_uint8_t_r16_long) { all<uint8_t>(4, 16); }
W(big_int16_t) { big<int16_t>(5, 7, 10); }
W(big_uint16_t) { big<uint16_t>(4, 6, 10); }
W(big_int32_t) { big<int32_t>(9, 12, 10); }
W(big_uint32_t) { big<uint32_t>(9, 12, 10); }
W(big_int32_t_r16) { big<int32_t>(7, 10, 16); }
W(big_uint32_t_r16) { big<uint32_t>(8, 10, 16); }
W(big_int16_t_r16) { big<int16_t>(3, 6, 16); }
W(big_uint16_t_r16) { big<uint16_t>(4, 6, 16); }
W(big_int8_t_r2) { big<int8_t>(7, 10, 2); }
W(big_uint8_t_r2) { big<uint8_t>(7, 10, 2); }
// every radix
template <class I> static void anyr(size_t minn, size_t maxn) {
  vp_no_crash(true);
  char b[24];
  uint32_t radix = (uint32_t)vp_pick(2, 36);
  size_t n = vp_pick(minn, maxn);
  text(b, n);
  for (size_t i = n > 2 ? 0 : n; i < n; ++i) vp_assume((b[i] >= '0' && b[i] <= '9') || (b[i] >= 'a' && b[i] <= 'z') || b[i] == '-');
  same(best::atoi<I>(best::pretext<best::utf8>(best::span(b, n)), radix), whole<I>(b, n, radix));
}
W(anyradix_int8_t) { anyr<int8_t>(0, 3); }
W(anyradix_uint8_t) { anyr<uint8_t>(0, 3); }
W(anyradix_int16_t) { anyr<int16_t>(3, 3); }
W(anyradix_uint16_t) { anyr<uint16_t>(4, 4); }
template <class I> static void with_sign() {
  vp_no_crash(true);
  char b[4];
  size_t n = vp_pick(0, 3);
  text(b, n);
  bool neg = vp_split(any<bool>("neg"));
  static const uint32_t rs[] = {10, 16, 8};
  uint32_t radix = rs[vp_pick(0, 2)];
  best::pretext<best::utf8> s(best::span(b, n));
  same(best::atoi_with_sign<I>(s, neg, radix), digits<I>(b, n, neg, radix));
  REACH("sign");
}
W(sign_int8_t) { with_sign<int8_t>(); }
W(sign_uint8_t) { with_sign<uint8_t>(); }
W(sign_int32_t) { with_sign<int32_t>(); }
W(sign_uint32_t) { with_sign<uint32_t>(); }
template <class I> static void prefix() {
  vp_no_crash(true);
  char b[5];
  size_t n = vp_pick(0, 4);
  text(b, n);
  auto r = best::atoi_with_prefix<I>(best::pretext<best::utf8>(best::span(b, n)));
  const char* p = b; size_t m = n; bool neg = false;
  if (m && (p[0] == '-' || p[0] == '+')) { neg = p[0] == '-'; ++p; --m; }
  uint32_t radix = 10;
  if (m == 1 && p[0] == '0') { same(r, Ref{true, 0}); return; }
  if (m >= 2 && p[0] == '0' && p[1] == 'x') { radix = 16; p += 2; m -= 2; }
  else if (m >= 2 && p[0] == '0' && p[1] == 'b') { radix = 2; p += 2; m -= 2; }
  else if (m >= 2 && p[0] == '0' && p[1] == 'o') { radix = 8; p += 2; m -= 2; }
  else if (m >= 1 && p[0] == '0') { radix = 8; p += 1; m -= 1; }
  same(r, digits<I>(p, m, neg, radix));
}
W(prefix_int8_t) { prefix<int8_t>(); }
W(prefix_uint8_t) { prefix<uint8_t>(); }
W(prefix_int32_t) { prefix<int32_t>(); }
W(prefix_uint64_t) { prefix<uint64_t>(); }
// other string types give the same answer
W(other_strings) {
  vp_no_crash(true);
  char b[3];
  size_t n = vp_pick(0, 3);
  text(b, n);
  for (size_t i = 0; i < n; ++i) vp_assume(b[i] != 0);
  char16_t w[3];
  for (size_t i = 0; i < n; ++i) w[i] = b[i];
  same(best::atoi<int8_t>(best::pretext<best::utf16>(best::span(w, n))), whole<int8_t>(b, n, 10));
  best::str s = *best::str::from(best::span(b, n));
  same(best::atoi<int8_t>(s), whole<int8_t>(b, n, 10));
  bool neg = vp_split(any<bool>("neg"));
  same(best::atoi_with_sign<int8_t>(s, neg, 10), digits<int8_t>(b, n, neg, 10));
}
// digits of runes
W(rune_digits) {
  vp_no_crash(true);
  uint32_t v = any<uint32_t>("rune");
  size_t radix = vp_pick(0, 36);
  auto r = best::rune::from_int(v);
  if (!r) return;
  auto d = r->to_digit(radix);
  int e = v < 0x80 ? digit((uint8_t)v) : 99;
  if (e < (int)radix) { MUST(d.has_value() && *d == (uint32_t)e, "to_digit value"); REACH("digit"); }
  else { MUST(!d.has_value(), "to_digit rejects"); REACH("none"); }
  MUST(r->is_digit(radix) == d.has_value(), "is_digit agrees with to_digit");
}
W(rune_from_digit) {
  vp_no_crash(true);
  uint32_t v = any<uint32_t>("num");
  size_t radix = vp_pick(0, 36);
  if (vp_split(v >= radix)) { MUST(!best::rune::from_digit(v, radix), "from_digit rejects values outside the radix"); return; }
  v = vp_pick(0, 35);
  vp_assume(v < radix);
  auto r = best::rune::from_digit(v, radix);
  MUST(r.has_value() && *r->to_digit(radix) == v, "from_digit and to_digit are inverse");
  MUST(r->to_int() == (v < 10 ? '0' + v : 'a' + v - 10), "from_digit yields 0-9a-z");
  REACH("inverse");
}
W(radix_too_large) {
  uint32_t radix = any<uint32_t>("radix");
  vp_assume(radix > 36);
  char b[1]; text(b, 1);
  switch (vp_pick(0, 2)) {
    case 0: MUST_CRASH(best::atoi<int>(best::pretext<best::utf8>(best::span(b, 1)), radix), "radix above 36 must crash"); break;
    case 1: MUST_CRASH(best::rune('a').to_digit(radix), "radix above 36 must crash"); break;
    case 2: MUST_CRASH(best::rune::from_digit(1, radix), "radix above 36 must crash"); break;
  }
}
CONTROL(neg) {
  char b[2]; text(b, 2);
  auto r = best::atoi<int8_t>(best::pretext<best::utf8>(best::span(b, 2)));
  if (r.ok()) MUST(*r.ok() >= 0, "control: negative numerals parse");
}
