// U02: encoding a rune writes exactly its standard form, decoding it (from either end) gives it back.
#include "utfsup.h"
template <class E> static void enc() {
  vp_no_crash(true); using C = best::code<E>;
  rune r = mk(); C want[4]; size_t k = refenc<E>(r.to_int(), want);
  auto sz = r.size<E>(); MUST(bool(sz) == (k != 0), "size() succeeds exactly for encodable runes"); if (k) MUST(*sz.ok() == k, "size() is the encoded length");
  C buf[8]; size_t n = vp_pick(0, 5); for (size_t i = 0; i < 8; ++i) buf[i] = C(0x5a);
  best::span<C> out(buf + 1, n); auto w = r.encode<E>(&out);
  MUST(bool(w) == (k != 0 && k <= n), "encode succeeds exactly when the rune is encodable and fits");
  if (!w) { MUST(out.size() == n && out.data().raw() == buf + 1, "a failed encode does not advance the output"); MUST(*w.err() == (k == 0 && (n >= Max<E>) ? encoding_error::Invalid : *w.err()), "an unencodable rune is invalid"); if (k) MUST(*w.err() == encoding_error::OutOfBounds, "a full buffer is out of bounds"); REACH("fail"); return; }
  MUST(w.ok()->data().raw() == buf + 1 && w.ok()->size() == k, "encode returns what it wrote"); MUST(out.data().raw() == buf + 1 + k && out.size() == n - k, "encode advances the output past what it wrote");
  for (size_t i = 0; i < k; ++i) MUST(buf[1 + i] == want[i], "encode writes the standard form");
  for (size_t i = 0; i < 8; ++i) if (i < 1 || i > n) MUST(buf[i] == C(0x5a), "encode writes only to the output");
  REACH("ok");
}
template <class E> static void trip() {
  vp_no_crash(true); using C = best::code<E>;
  rune r = mk(); C c[4]; size_t k = refenc<E>(r.to_int(), c); if (!k) return;
  C buf[8]; size_t pre = vp_pick(0, 2), post = vp_pick(0, 2); vp_bytes(buf, sizeof(buf), "b"); for (size_t i = 0; i < k; ++i) buf[pre + i] = c[i];
  best::span<const C> s(buf + pre, k + post); auto d = rune::decode<E>(&s); MUST(bool(d) && *d.ok() == r, "decode gives back the encoded rune"); MUST(s.data().raw() == buf + pre + k && s.size() == post, "decode consumes exactly the rune");
  best::span<const C> u(buf, pre + k); auto v = rune::undecode<E>(&u); MUST(bool(v) && *v.ok() == r, "undecode gives back the encoded rune"); MUST(u.data().raw() == buf && u.size() == pre, "undecode consumes exactly the rune");
  best::span<const C> x(buf + pre, k); MUST(rune::validate<E>(x), "an encoded rune is valid"); for (size_t i = 0; i <= k; ++i) MUST(rune::is_boundary<E>(x, i) == (i == 0 || i == k), "only the ends of an encoded rune are boundaries"); MUST(!rune::is_boundary<E>(x, k + 1), "past the end is no boundary");
  for (size_t i = 1; i < k; ++i) { best::span<const C> t(buf + pre + i, k - i), h(buf + pre, i); MUST(!rune::decode<E>(t), "a suffix of an encoded rune does not decode"); MUST(!rune::decode<E>(h), "a prefix of an encoded rune does not decode"); MUST(!rune::undecode<E>(h), "a prefix of an encoded rune does not decode backwards"); MUST(!rune::undecode<E>(t), "a suffix of an encoded rune does not decode backwards"); REACH("split"); }
  REACH("trip");
}
// Runes as base-64 digits, the encodings' own base; a rune's order is the order of its digits.
static rune digits(const char* n, uint8_t* d) { for (int i = 0; i < 4; ++i) { d[i] = any<uint8_t>(n) & 63; } vp_assume(d[0] < 4 || (d[0] == 4 && d[1] < 16)); uint32_t v = 0; for (int i = 0; i < 4; ++i) v = v << 6 | d[i]; return *rune::from_int_allow_surrogates(v); }
static int cmp(const uint8_t* a, const uint8_t* b) { for (int i = 0; i < 4; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
template <class E> static void lex() {
  vp_no_crash(true); using C = best::code<E>; uint8_t p[4], q[4]; rune a = Max<E> > 1 ? digits("a", p) : mk("a"), b = Max<E> > 1 ? digits("b", q) : mk("b"); C x[4], y[4]; size_t n = refenc<E>(a.to_int(), x), m = refenc<E>(b.to_int(), y); if (!n || !m) return;
  int want = Max<E> > 1 ? cmp(p, q) : a < b ? -1 : a == b ? 0 : 1; auto c = best::span<const C>(x, n) <=> best::span<const C>(y, m); MUST((c < 0) == (want < 0) && (c == 0) == (want == 0), "a lexicographic encoding orders runes like their codes"); REACH("lex");
}
template <class E> static void about() { MUST(E::About.max_codes_per_rune == Max<E>, "max_codes_per_rune"); MUST(E::About.allows_surrogates == (refenc<E>(0xd800, (best::code<E>[4]){}) != 0), "allows_surrogates"); MUST(E::About.is_universal == (refenc<E>(0x10ffff, (best::code<E>[4]){}) != 0), "is_universal"); }
W(about) { about<utf8>(); about<wtf8>(); about<utf16>(); about<utf32>(); about<ascii>(); about<latin1>(); REACH("done"); }
W(enc_utf8) { enc<utf8>(); } W(enc_wtf8) { enc<wtf8>(); } W(enc_utf16) { enc<utf16>(); } W(enc_utf32) { enc<utf32>(); } W(enc_ascii) { enc<ascii>(); } W(enc_latin1) { enc<latin1>(); }
W(trip_utf8) { trip<utf8>(); } W(trip_wtf8) { trip<wtf8>(); } W(trip_utf16) { trip<utf16>(); } W(trip_utf32) { trip<utf32>(); } W(trip_ascii) { trip<ascii>(); } W(trip_latin1) { trip<latin1>(); }
W(lex_utf8) { lex<utf8>(); } W(lex_wtf8) { lex<wtf8>(); } W(lex_utf32) { lex<utf32>(); } W(lex_ascii) { lex<ascii>(); } W(lex_latin1) { lex<latin1>(); }
CONTROL(v) { rune r = mk(); char b[4]; auto w = r.encode<utf8>(best::span<char>(b, 4)); MUST(!w || w.ok()->size() < 4, "control"); }
