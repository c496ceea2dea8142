// T01: text is always well-formed: making it validates, slicing it happens only between runes.
#include "textsup.h"
template <class E, size_t N> static void from() {
  vp_no_crash(true); using C = best::code<E>; C b[N]; vp_bytes(b, sizeof(b), "b"); size_t n = vp_pick(0, N); const C* p = b + (N - n);
  size_t i = 0; while (i < n) { uint32_t v; size_t k = refdec<E>(p + i, n - i, &v); if (!k) break; i += k; }
  auto t = best::text<E>::from(best::pretext<E>(best::span<const C>(p, n))); MUST(t.has_value() == (i == n), "text is made exactly of well-formed code units"); if (t) { MUST(is(*t, p, n) && t->is_empty() == (n == 0) && t->as_codes().data().raw() == p && t->as_codes().size() == n, "text refers to the code units it was made of"); REACH("valid"); } else REACH("invalid");
}
template <class E, size_t N> static void at() {
  vp_no_crash(true); Txt<E, N> x; auto t = x.text(); size_t a = any<size_t>("a"), b = any<size_t>("b"); bool ok = a <= b && b <= x.n && x.boundary(a) && x.boundary(b);
  auto s = t.at({.start = a, .end = b}); MUST(s.has_value() == ok, "at() succeeds exactly for ranges between runes"); if (s) { MUST(is(*s, x.p + a, b - a), "at() gives the range's code units"); REACH("some"); } else REACH("none");
  MUST(t.is_rune_boundary(a) == x.boundary(a), "rune boundaries");
}
template <class E, size_t N> static void atc() {
  vp_no_crash(true); Txt<E, N> x; auto t = x.text(); size_t a = any<size_t>("a"), c = any<size_t>("c"); bool ok = a <= x.n && c <= x.n - a && x.boundary(a) && x.boundary(a + c);
  auto s = t.at({.start = a, .count = c}); MUST(s.has_value() == ok, "at() succeeds exactly for ranges between runes"); if (s) { MUST(is(*s, x.p + a, c), "at() gives the range's code units"); REACH("some"); } else REACH("none");
  auto u = t.at({.start = a}); MUST(u.has_value() == x.boundary(a), "at(start)"); if (u) MUST(is(*u, x.p + a, x.n - a), "at(start)"); auto v = t.at({.end = a}); MUST(v.has_value() == x.boundary(a), "at(end)"); if (v) MUST(is(*v, x.p, a), "at(end)");
}
template <class E, size_t N> static void sub() {
  Txt<E, N> x; auto t = x.text(); size_t a = any<size_t>("a"), b = any<size_t>("b"); bool ok = a <= b && b <= x.n && x.boundary(a) && x.boundary(b); if (vp_split(ok)) vp_no_crash(true);
  auto s = t[{.start = a, .end = b}]; MUST(ok, "slicing through a rune crashes"); MUST(is(s, x.p + a, b - a), "slicing gives the range's code units"); REACH("some");
}
template <class E, size_t N> static void cut() {
  vp_no_crash(true); Txt<E, N> x; auto t = x.text(); size_t a = any<size_t>("a"); auto s = t.split_at(a); MUST(s.has_value() == x.boundary(a), "split_at succeeds exactly between runes"); if (s) { MUST(is(s->first(), x.p, a) && is(s->second(), x.p + a, x.n - a), "split_at gives both halves"); REACH("some"); } else REACH("none");
}
template <class E, size_t N> static void pre() {
  using C = best::code<E>; C b[N]; vp_bytes(b, sizeof(b), "b"); size_t n = vp_pick(0, N); best::pretext<E> t(best::span<const C>(b, n)); size_t i = any<size_t>("i"), j = any<size_t>("j"); bool ok = i <= j && j <= n;
  auto s = t.at({.start = i, .end = j}); MUST(s.has_value() == ok, "pretext::at() succeeds exactly in bounds"); if (s) MUST(is(*s, b + i, j - i), "pretext::at()"); auto u = t.split_at(i); MUST(u.has_value() == (i <= n), "pretext::split_at"); if (u) MUST(is(u->first(), b, i) && is(u->second(), b + i, n - i), "pretext::split_at");
  if (vp_split(ok)) vp_no_crash(true); auto v = t[{.start = i, .end = j}]; MUST(ok && is(v, b + i, j - i), "slicing a pretext out of bounds crashes"); REACH("some");
}
template <class E, size_t N> static void nul() {
  vp_no_crash(true); using C = best::code<E>; C b[N + 1]; vp_bytes(b, sizeof(b), "b"); b[N] = 0; size_t n = 0; while (b[n]) ++n; auto t = best::pretext<E>::from_nul(b); MUST(is(t, b, n), "from_nul stops at the terminator"); MUST(best::pretext<E>::from_nul(nullptr).is_empty(), "from_nul(nullptr) is empty"); auto q = best::text<E>::from_nul(b); auto w = best::text<E>::from(t); MUST(q.has_value() == w.has_value(), "from_nul validates"); if (q) MUST(is(*q, b, n), "from_nul"); REACH("done");
}
template <class E, size_t N> static void partial() {
  vp_no_crash(true); using C = best::code<E>; C b[N]; vp_bytes(b, sizeof(b), "b"); size_t n = vp_pick(0, N); const C* p = b + (N - n); size_t i = 0; while (i < n) { uint32_t v; size_t k = refdec<E>(p + i, n - i, &v); if (!k) break; i += k; }
  auto r = best::text<E>::from_partial(best::pretext<E>(best::span<const C>(p, n))); MUST(is(r.first(), p, i), "from_partial gives the longest valid prefix"); MUST(is(r.second(), p + i, n - i), "from_partial gives the rest"); REACH("done");
}
#define ALL(f, n8, n16, n1) W(f##_utf8) { f<utf8, n8>(); } W(f##_wtf8) { f<wtf8, n8>(); } W(f##_utf16) { f<utf16, n16>(); } W(f##_utf32) { f<utf32, n1>(); } W(f##_latin1) { f<latin1, n1>(); }
ALL(from, 4, 3, 2) ALL(at, 2, 2, 2) ALL(atc, 2, 2, 2) ALL(sub, 2, 2, 2) ALL(cut, 2, 3, 3) ALL(pre, 3, 3, 3) ALL(nul, 3, 3, 3)
ALL(partial, 4, 3, 2)
CONTROL(v) { Txt<utf8, 2> x; size_t a = any<size_t>("a"); auto s = x.text().at({.start = a}); MUST(s.has_value() == (a <= x.n), "control"); }
