// Arbitrary well-formed text, as runes and as their standard encoding.
#ifndef TEXTSUP_H_
#define TEXTSUP_H_
#include "utfsup.h"
#include "best/text/str.h"
// Up to N runes, in one buffer whose end is the end of the text.
template <class E, size_t N> struct Txt {
  using C = best::code<E>;
  C buf[N * Max<E> + 1]; C* p; size_t n = 0, k; uint32_t r[N + 1]; size_t at[N + 2];  // code units, runes, where each starts
  explicit Txt(const char* nm = "t", size_t lo = 0) {
    C tmp[N + 1][4]; size_t len[N + 1]; k = vp_pick(lo, N);
    for (size_t i = 0; i < k; ++i) { uint32_t v = any<uint32_t>(nm); if (best::same<E, utf16> && vp_pick(0, 1)) v = 0x10000 + (v & 0xfffff); else vp_assume(v <= (best::same<E, utf16> ? 0xffff : 0x10ffff)); len[i] = refenc<E>(v, tmp[i]); vp_assume(len[i] != 0); r[i] = v; at[i] = n; n += len[i]; }
    at[k] = n; p = buf + (N * Max<E> + 1 - n);
    for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < len[i]; ++j) p[at[i] + j] = tmp[i][j];
  }
  best::span<const C> span() const { return {p, n}; }
  best::text<E> text() const { return best::text<E>(best::unsafe("built from runes"), best::pretext<E>(span())); }
  best::pretext<E> pre() const { return best::pretext<E>(span()); }
  // Whether rune i is rune j of d: the same code point and, in the same encoding, the same code units (refenc is injective).
  template <class F, size_t M> bool same(size_t i, const Txt<F, M>& d, size_t j) const {
    bool e = vp_split(r[i] == d.r[j]);
    if constexpr (best::same<E, F>) { size_t l = at[i + 1] - at[i]; vp_assume(e == (l == d.at[j + 1] - d.at[j] && vp_same(p + at[i], d.p + d.at[j], l * sizeof(C)))); }
    return e;
  }
  // How rune i compares with rune j of d; in a lexicographic encoding, so do their code units (U02).
  template <class F, size_t M> int ord(size_t i, const Txt<F, M>& d, size_t j) const {
    uint32_t v = r[i], w = d.r[j]; int o = vp_split(v == w) ? 0 : vp_split(v < w) ? -1 : 1;
    if constexpr (best::same<E, F> && !best::same<E, utf16>) {
      size_t l = at[i + 1] - at[i], m = d.at[j + 1] - d.at[j], x = 0; for (; x < l && x < m; ++x) if (p[at[i] + x] != d.p[d.at[j] + x]) break;
      if (x == l || x == m) vp_assume(o == 0 && l == m); else vp_assume((o < 0) == (un(p[at[i] + x]) < un(d.p[d.at[j] + x])));
    } else if constexpr (best::same<E, F>) (void)same(i, d, j);
    return o;
  }
  static uint32_t un(C c) { return sizeof(C) == 1 ? uint8_t(c) : c; }
  template <class F, size_t M> void link(const Txt<F, M>& d) const { for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < d.k; ++j) (void)same(i, d, j); }
  bool boundary(size_t x) const { for (size_t i = 0; i <= k; ++i) if (at[i] == x) return true; return false; }
};
template <class T, class C> static bool is(const T& t, const C* p, size_t n) { return t.data() == p && t.size() == n; }
#endif
