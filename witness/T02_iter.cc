// T02: iterating text yields its runes in order, from either end, each exactly once.
#include "textsup.h"
template <class It> static void hint(const It& it, size_t left) { auto h = it.size_hint(); MUST(h.lower <= left && (!h.upper || *h.upper >= left), "the size hint bounds what is left"); }
template <class E, size_t N> static void both() {
  vp_no_crash(true); Txt<E, N> x; auto it = x.text().runes(); size_t i = 0, j = x.k;
  while (i < j) { hint(it, j - i); bool back = vp_pick(0, 1); auto r = back ? it.next_back() : it.next(); MUST(r.has_value() && r->to_int() == (back ? x.r[--j] : x.r[i++]), "runes() yields each rune in order, from either end"); MUST(is(it->rest(), x.p + x.at[i], x.at[j] - x.at[i]), "rest() is what has not been yielded"); REACH("rune"); }
  hint(it, 0); MUST(!it.next() && !it.next_back() && !it.next(), "an exhausted iterator stays exhausted"); REACH("done");
}
template <class E, size_t N> static void index() {
  vp_no_crash(true); Txt<E, N> x; auto it = x.text().rune_indices(); size_t i = 0, j = x.k;
  while (i < j) { bool back = vp_pick(0, 1); auto r = back ? it.next_back() : it.next(); if (back) --j; size_t e = back ? j : i++; MUST(r.has_value() && r->first() == x.at[e] && r->second().to_int() == x.r[e], "rune_indices() yields each rune with its position"); REACH("rune"); }
  MUST(!it.next() && !it.next_back(), "an exhausted iterator stays exhausted"); REACH("done");
}
template <class E, size_t N> static void loop() {
  vp_no_crash(true); Txt<E, N> x; size_t i = 0; for (auto r : x.text().runes()) { MUST(i < x.k && r.to_int() == x.r[i], "a loop over runes() visits each rune in order"); ++i; } MUST(i == x.k, "a loop visits every rune"); MUST(x.text().runes().count() == x.k, "count()"); i = x.k; for (auto r : x.text().runes().rev()) { MUST(i > 0 && r.to_int() == x.r[--i], "reversed runes"); } MUST(i == 0, "a loop visits every rune"); REACH("done");
}
// Arbitrary code units: each unit that is part of no rune counts as one error.
template <class E, size_t N> struct Raw {
  using C = best::code<E>; C b[N]; C* p; size_t n, k = 0; uint32_t r[N + 1]; bool ok[N + 1]; size_t at[N + 2];
  Raw() { vp_bytes(b, sizeof(b), "b"); n = vp_pick(0, N); p = b + (N - n); size_t i = 0; while (i < n) { uint32_t v = 0xfffd; size_t m = refdec<E>(p + i, n - i, &v); ok[k] = m != 0; r[k] = m ? v : 0xfffd; at[k++] = i; i += m ? m : 1; } at[k] = n; }
  best::pretext<E> pre() const { return best::pretext<E>(best::span<const C>(p, n)); }
};
template <class E, size_t N> static void tryr() {
  vp_no_crash(true); Raw<E, N> x; auto it = x.pre().try_runes(); size_t i = 0, j = x.k; bool back = vp_pick(0, 1);
  while (i < j) { hint(it, j - i); auto r = back ? it.next_back() : it.next(); if (back) --j; size_t e = back ? j : i++; MUST(r.has_value() && bool(*r) == x.ok[e], "try_runes() yields an error for each invalid unit"); if (x.ok[e]) MUST(r->ok()->to_int() == x.r[e], "try_runes() yields each rune in order"); MUST(is(it->rest(), x.p + x.at[i], x.at[j] - x.at[i]), "rest() is what has not been yielded"); REACH("rune"); }
  MUST(!it.next() && !it.next_back(), "an exhausted iterator stays exhausted"); REACH("done");
}
template <class E, size_t N> static void lossy() {
  vp_no_crash(true); Raw<E, N> x; auto it = x.pre().runes(); size_t i = 0, j = x.k; bool back = vp_pick(0, 1);
  while (i < j) { auto r = back ? it.next_back() : it.next(); if (back) --j; size_t e = back ? j : i++; MUST(r.has_value() && r->to_int() == x.r[e], "runes() of a pretext replaces each invalid unit"); REACH("rune"); }
  MUST(!it.next() && !it.next_back(), "an exhausted iterator stays exhausted"); REACH("done");
}
template <class E, size_t N> static void lossyi() {
  vp_no_crash(true); Raw<E, N> x; auto it = x.pre().rune_indices(); size_t i = 0, j = x.k; bool back = vp_pick(0, 1);
  while (i < j) { auto r = back ? it.next_back() : it.next(); if (back) --j; size_t e = back ? j : i++; MUST(r.has_value() && r->first() == x.at[e] && r->second().to_int() == x.r[e], "rune_indices() of a pretext gives positions"); REACH("rune"); }
  MUST(!it.next() && !it.next_back(), "an exhausted iterator stays exhausted"); REACH("done");
}
#define ALL(f, n8, n16, n1) W(f##_utf8) { f<utf8, n8>(); } W(f##_wtf8) { f<wtf8, n8>(); } W(f##_utf16) { f<utf16, n16>(); } W(f##_utf32) { f<utf32, n1>(); } W(f##_latin1) { f<latin1, n1>(); }
ALL(both, 2, 2, 3) ALL(loop, 2, 2, 3) ALL(index, 2, 2, 3) ALL(tryr, 3, 3, 3) ALL(lossy, 3, 3, 3) ALL(lossyi, 3, 3, 3)
CONTROL(v) { Txt<utf8, 2> x; auto it = x.text().runes(); auto r = it.next(); MUST(!r || *r < 0x10000, "control"); }
