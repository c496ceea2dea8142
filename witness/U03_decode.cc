// U03: decoding accepts exactly the well-formed code sequences, whatever the input, and touches nothing else.
#include "utfsup.h"
template <class E> static void same(bool ok, encoding_error) {}
template <class E, size_t N> static void dec() {
  vp_no_crash(true); using C = best::code<E>; C b[N]; vp_bytes(b, sizeof(b), "b"); size_t n = vp_pick(0, N); const C* p = b + (N - n);
  uint32_t v = 0; size_t k = refdec<E>(p, n, &v); best::span<const C> s(p, n); auto d = rune::decode<E>(&s);
  MUST(bool(d) == (k != 0), "decode accepts exactly the well-formed sequences");
  if (k) { MUST(d.ok()->to_int() == v, "decode gives the encoded rune"); MUST(s.data().raw() == p + k && s.size() == n - k, "decode consumes exactly the rune"); REACH("ok"); }
  else { MUST(s.data().raw() == p && s.size() == n, "a failed decode does not advance the input"); if (n == 0) MUST(*d.err() == encoding_error::OutOfBounds, "decoding nothing is out of bounds"); if (n >= Max<E>) MUST(*d.err() == encoding_error::Invalid, "an ill-formed sequence is invalid"); REACH("fail"); }
}
template <class E, size_t N> static void undec() {
  vp_no_crash(true); using C = best::code<E>; C b[N]; vp_bytes(b, sizeof(b), "b"); size_t n = vp_pick(0, N); best::span<const C> s(b, n);
  uint32_t v = 0; size_t k = 0; for (size_t i = 1; i <= n && i <= Max<E>; ++i) { uint32_t w; if (refdec<E>(b + (n - i), i, &w) == i) { MUST(k == 0, "at most one suffix is a rune"); k = i; v = w; } }
  auto d = rune::undecode<E>(&s); MUST(bool(d) == (k != 0), "undecode accepts exactly the input that ends in a well-formed sequence");
  if (k) { MUST(d.ok()->to_int() == v, "undecode gives the last rune"); MUST(s.data().raw() == b && s.size() == n - k, "undecode consumes exactly the rune"); REACH("ok"); }
  else { MUST(s.data().raw() == b && s.size() == n, "a failed undecode does not advance the input"); if (n == 0) MUST(*d.err() == encoding_error::OutOfBounds, "decoding nothing is out of bounds"); REACH("fail"); }
}
template <class E, size_t N> static void valid() {
  vp_no_crash(true); using C = best::code<E>; C b[N]; vp_bytes(b, sizeof(b), "b"); size_t n = vp_pick(0, N); const C* p = b + (N - n);
  size_t i = 0; while (i < n) { uint32_t v; size_t k = refdec<E>(p + i, n - i, &v); if (!k) break; i += k; }
  MUST(rune::validate<E>(best::span<const C>(p, n)) == (i == n), "validate accepts exactly sequences of well-formed runes"); if (i == n) REACH("valid"); else REACH("invalid");
}
template <class E, size_t N> static void bound() {
  vp_no_crash(true); using C = best::code<E>; C b[N]; vp_bytes(b, sizeof(b), "b"); size_t n = vp_pick(0, N); bool at[N + 1] = {};
  size_t i = 0; while (i < n) { at[i] = true; uint32_t v; size_t k = refdec<E>(b + i, n - i, &v); if (!k) return; i += k; } at[n] = true;
  best::span<const C> s(b, n); for (size_t j = 0; j <= n; ++j) MUST(rune::is_boundary<E>(s, j) == at[j], "boundaries of well-formed text are those between runes"); size_t x = any<size_t>("x"); vp_assume(x > n); MUST(!rune::is_boundary<E>(s, x), "past the end is no boundary"); REACH("done");
}
#define ALL(f, n8, n16, n1) W(f##_utf8) { f<utf8, n8>(); } W(f##_wtf8) { f<wtf8, n8>(); } W(f##_utf16) { f<utf16, n16>(); } W(f##_utf32) { f<utf32, n1>(); } W(f##_ascii) { f<ascii, n1>(); } W(f##_latin1) { f<latin1, n1>(); }
ALL(dec, 5, 3, 2) ALL(undec, 6, 3, 2) ALL(valid, 5, 4, 3) ALL(bound, 5, 4, 3)
CONTROL(v) { char b[3]; vp_bytes(b, 3, "b"); MUST(!rune::decode<utf8>(best::span<const char>(b, 3)) || (b[0] & 0x80) == 0, "control"); }
