// Reference encodings, written from the Unicode standard (tables 3-5, 3-6, 3-7), for the text witnesses.
#ifndef UTFSUP_H_
#define UTFSUP_H_
#include "vp.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/text/rune.h"
#include "best/text/utf8.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/ascii.h"
using best::rune; using best::utf8; using best::wtf8; using best::utf16; using best::utf32; using best::ascii; using best::latin1; using best::encoding_error;
static inline bool in(uint32_t v, uint32_t a, uint32_t b) { return v >= a && v <= b; }
static inline bool sur(uint32_t v) { return in(v, 0xd800, 0xdfff); }
static inline rune mk(const char* n = "r") { uint32_t v = any<uint32_t>(n); vp_assume(v <= 0x10ffff); return *rune::from_int_allow_surrogates(v); }
template <class E> constexpr size_t Max = 1;
template <> inline constexpr size_t Max<utf8> = 4; template <> inline constexpr size_t Max<wtf8> = 4; template <> inline constexpr size_t Max<utf16> = 2;
// Encodes v; 0 if not encodable.
template <class E> static size_t refenc(uint32_t v, best::code<E>* o) {
  if constexpr (best::same<E, utf8> || best::same<E, wtf8>) {
    if (best::same<E, utf8> && sur(v)) return 0;
    if (v < 0x80) { o[0] = char(v); return 1; }
    if (v < 0x800) { o[0] = char(0xc0 | ((v >> 6) & 31)); o[1] = char(0x80 | (v & 63)); return 2; }
    if (v < 0x10000) { o[0] = char(0xe0 | ((v >> 12) & 15)); o[1] = char(0x80 | ((v >> 6) & 63)); o[2] = char(0x80 | (v & 63)); return 3; }
    o[0] = char(0xf0 | ((v >> 18) & 7)); o[1] = char(0x80 | ((v >> 12) & 63)); o[2] = char(0x80 | ((v >> 6) & 63)); o[3] = char(0x80 | (v & 63)); return 4;
  } else if constexpr (best::same<E, utf16>) {
    if (sur(v)) return 0;
    if (v < 0x10000) { o[0] = char16_t(v); return 1; }
    v -= 0x10000; o[0] = char16_t(0xd800 | ((v >> 10) & 0x3ff)); o[1] = char16_t(0xdc00 | (v & 0x3ff)); return 2;
  } else if constexpr (best::same<E, utf32>) { if (sur(v)) return 0; o[0] = v; return 1; }
  else { if (v > (best::same<E, ascii> ? 0x7fu : 0xffu)) return 0; o[0] = char(v); return 1; }
}
// Length of the well-formed code sequence that p[0..n) starts with, or 0; its rune in *v.
template <class E> static size_t refdec(const best::code<E>* p, size_t n, uint32_t* v) {
  if (n == 0) return 0;
  if constexpr (best::same<E, utf8> || best::same<E, wtf8>) {
    uint8_t a = uint8_t(p[0]);
    if (a < 0x80) { *v = a; return 1; }
    if (a < 0xc2 || a > 0xf4) return 0;
    size_t k = a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4; if (n < k) return 0;
    uint8_t b = uint8_t(p[1]), lo = a == 0xe0 ? 0xa0 : a == 0xf0 ? 0x90 : 0x80, hi = a == 0xed && best::same<E, utf8> ? 0x9f : a == 0xf4 ? 0x8f : 0xbf;
    if (b < lo || b > hi) return 0;
    uint32_t c = k > 2 ? uint8_t(p[2]) : 0x80, d = k > 3 ? uint8_t(p[3]) : 0x80; if (!in(c, 0x80, 0xbf) || !in(d, 0x80, 0xbf)) return 0;
    *v = k == 2 ? uint32_t(a & 31) << 6 | (b & 63) : k == 3 ? uint32_t(a & 15) << 12 | uint32_t(b & 63) << 6 | (c & 63) : uint32_t(a & 7) << 18 | uint32_t(b & 63) << 12 | (c & 63) << 6 | (d & 63);
    return k;
  } else if constexpr (best::same<E, utf16>) {
    uint32_t a = p[0]; if (!sur(a)) { *v = a; return 1; } if (a >= 0xdc00 || n < 2) return 0;
    uint32_t b = p[1]; if (!in(b, 0xdc00, 0xdfff)) return 0; *v = 0x10000 + ((a & 0x3ff) << 10 | (b & 0x3ff)); return 2;
  } else if constexpr (best::same<E, utf32>) { *v = p[0]; return *v <= 0x10ffff && !sur(*v) ? 1 : 0; }
  else { *v = uint8_t(p[0]); return best::same<E, latin1> || *v < 0x80 ? 1 : 0; }
}
#endif
