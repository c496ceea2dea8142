// T04: comparing text, in whatever encodings, compares the sequences of runes.
#include "textsup.h"
template <class A, class B> static int want(const A& a, const B& b) { for (size_t i = 0; i < a.k && i < b.k; ++i) if (int o = a.ord(i, b, i)) return o; return a.k < b.k ? -1 : a.k > b.k; }
template <class X, class Y> static void check(const X& x, const Y& y, int o) {
  MUST((x == y) == (o == 0), "== exactly when the runes are the same"); MUST((x != y) == (o != 0), "!= is the opposite of ==");
  auto c = x <=> y; MUST((c < 0) == (o < 0) && (c == 0) == (o == 0), "<=> orders by runes"); MUST((x < y) == (o < 0) && (x <= y) == (o <= 0) && (x > y) == (o > 0) && (x >= y) == (o >= 0), "relational operators agree with <=>");
  if (o < 0) REACH("less"); else if (o > 0) REACH("greater"); else REACH("equal");
}
template <class E, class F, size_t N, size_t M> static void cmp() { vp_no_crash(true); Txt<E, N> a; Txt<F, M> b("u"); int o = want(a, b); check(a.text(), b.text(), o); }
template <class E, class F, size_t N, size_t M> static void pre() { vp_no_crash(true); Txt<E, N> a; Txt<F, M> b("u"); int o = want(a, b); check(a.pre(), b.pre(), o); check(a.text(), b.pre(), o); check(a.pre(), b.text(), o); }
template <class E, class F, size_t N> static void rn() {
  vp_no_crash(true); Txt<E, N> a; Txt<F, 1> b("u", 1); int o = want(a, b); rune r = *rune::from_int(b.r[0]);
  auto t = a.text(); MUST((t == r) == (o == 0), "text equals a rune when it is that rune"); auto c = t <=> r; MUST((c < 0) == (o < 0) && (c == 0) == (o == 0), "text orders against a rune as against the text of that rune");
  auto p = a.pre(); MUST((p == r) == (o == 0), "text equals a rune when it is that rune"); auto d = p <=> r; MUST((d < 0) == (o < 0) && (d == 0) == (o == 0), "text orders against a rune as against the text of that rune");
  if (o < 0) REACH("less"); else if (o > 0) REACH("greater"); else REACH("equal");
}
template <class E, size_t N> static void self() { vp_no_crash(true); Txt<E, N> a; auto t = a.text(); auto p = a.pre(); MUST(t == t && p == p && t == p && (t <=> t) == 0 && (p <=> p) == 0, "text equals itself"); MUST(t == a.span() && p == a.span(), "text equals its code units"); REACH("done"); }
#define CMP(nm, E, F, N, M) W(cmp_##nm) { cmp<E, F, N, M>(); } W(pre_##nm) { pre<E, F, N, M>(); }
CMP(u8, utf8, utf8, 2, 2) CMP(u16, utf16, utf16, 2, 2) CMP(u32, utf32, utf32, 3, 3) CMP(ascii, ascii, ascii, 3, 3) CMP(latin1, latin1, latin1, 3, 3) CMP(w8, wtf8, wtf8, 1, 1)
CMP(8_16, utf8, utf16, 1, 2) CMP(16_8, utf16, utf8, 1, 2) CMP(8_32, utf8, utf32, 1, 2) CMP(32_16, utf32, utf16, 2, 1) CMP(8_a, utf8, ascii, 2, 2) CMP(8_1, utf8, latin1, 1, 2) CMP(1_8, latin1, utf8, 2, 1) CMP(1_a, latin1, ascii, 2, 2) CMP(8_w, utf8, wtf8, 1, 2)
W(rune_8) { rn<utf8, utf8, 2>(); } W(rune_16) { rn<utf16, utf16, 2>(); } W(rune_32) { rn<utf32, utf32, 2>(); } W(rune_1) { rn<latin1, utf32, 2>(); } W(rune_a) { rn<ascii, utf32, 2>(); }
W(self_8) { self<utf8, 2>(); } W(self_16) { self<utf16, 2>(); } W(self_32) { self<utf32, 2>(); } W(self_1) { self<latin1, 2>(); }
CONTROL(v) { Txt<utf8, 2> a, b("u"); int o = want(a, b); MUST((a.text() <=> b.text()) > 0 == (o < 0), "control"); }
